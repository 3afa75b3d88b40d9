//! Pattern generators.

use crate::util::Rng;

const SUPPORTED: &[&str] = &["UCP", "UTF8", "UTF"];
const UNSUPPORTED: &[&str] = &[
    "NO_AUTO_POSSESS", "NO_START_OPT", "UTF16", "UTF32", "CR", "LF", "CRLF", "ANYCRLF", "ANY",
    "BSR_ANYCRLF", "BSR_UNICODE", "LIMIT_MATCH=", "LIMIT_MATCH=3", "LIMIT_MATCH=x y",
    "LIMIT_RECURSION=", "LIMIT_RECURSION=100",
];
const NEAR: &[&str] = &[
    "ucp", "Utf8", "UTF-8", "UTF88", "UT", "UCPX", "XUCP", " UCP", "UCP ", "UTF1", "UTF161", "LIMIT_MATCH",
    "LIMIT_MATCH 3", "limit_match=3", "XLIMIT_MATCH=3", "LIMIT_RECURSION", "BSR_", "NO_START", "CRL", "LFCR", "A",
    "ANYCR", "*", "**", "(", "((", "|", "a|b", "UCP(*UTF8", "UTF8(", "\u{e9}", "\u{1f600}x", "\0",
    "ACCEPT", "COMMIT", "index 7", "quiet", " at index 9", "empty", "control verb X",
];

pub const FOREIGN: &[char] = &[
    '\u{80}', '\u{e9}', '\u{ff}', '\u{100}', '\u{17f}', '\u{212a}', '\u{7ff}', '\u{800}', '\u{20ac}',
    '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}', '\u{131}', '\u{130}', '\u{a0}', '\u{2028}', '\u{feff}',
];

pub fn literal_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(10) {
            0 => r.below(128) as u8,
            1 => *r.pick(b"\0\n\r\t\x7f *+?[]{}\\^$.#@`{~_-/0129"),
            2 | 3 => b'A' + r.below(26) as u8,
            4 => *r.pick(b"azAZ@[`{"),
            5 | 6 => b'a' + r.below(26) as u8,
            _ => b'a' + r.below(3) as u8,
        };
        if c != b'(' && c != b')' && c != b'|' {
            return c as char;
        }
    }
}

pub fn verb(r: &mut Rng) -> String {
    let t: String = match r.below(8) {
        0..=3 => r.pick(SUPPORTED).to_string(),
        4 => r.pick(UNSUPPORTED).to_string(),
        5 | 6 => r.pick(NEAR).to_string(),
        _ => (0..r.below(6)).map(|_| literal_char(r)).collect(),
    };
    match r.below(10) {
        0 => format!("(*{}", t),
        1 => "(*)".to_string(),
        2 => format!("( *{})", t),
        3 => format!("(*{})(*UCP)", t),
        _ => format!("(*{})", t),
    }
}

/// All verbs of the tables and near misses, complete, with a remainder.
pub fn all_verbs() -> Vec<String> {
    let mut v = Vec::new();
    for t in SUPPORTED.iter().chain(UNSUPPORTED).chain(NEAR) {
        for rest in ["", "a", "(a|b)c", "(*UCP)a", "(*", ")", "\u{e9}", "(b"] {
            v.push(format!("(*{}){}", t, rest));
        }
        v.push(format!("(*{}", t));
        v.push(format!("a(*{})", t));
        v.push(format!("((*{}))", t));
    }
    for s in ["(*)", "(*", "(", "()*", "(*))", "(*)a", "(*)(*UCP)a", "*UCP)", "(*UCP", "(*UCP))", "(*UCP)(", "(*UCP)((a)"] {
        v.push(s.to_string());
    }
    for t in SUPPORTED.iter().chain(UNSUPPORTED) {
        for m in near(t) {
            v.push(format!("(*{})a", m));
        }
    }
    for t in [
        "LIMIT_DEPTH=9", "LIMIT_HEAP=1", "LIMIT_=", "LIMIT_MATCH", "LIMIT=", "LIMIT_MATCHES=3", "LIMIT_MATCH_=3", "NO_JIT",
        "NOTEMPTY", "NOTEMPTY_ATSTART", "NO_DOTSTAR_ANCHOR", "NO_", "NUL", "UTF16BE", "UTF7", "UTF64", "UCS2", "UNICODE",
        "BSR", "BSR_CRLF", "ANYLF", "ANYCRLF_", "EOL", "=", "==", "LIMIT_RECURSION =1", "LIMIT_RECURSION\0=1", "F", "FAIL",
        "SKIP", "PRUNE", "THEN", "MARK:x", ":x", "UTF8,UCP", "UTF8 UCP", "UCPUTF8",
    ] {
        v.push(format!("(*{})a", t));
    }
    v
}

/// A verb with one character more, less or changed.
fn near(t: &str) -> Vec<String> {
    let mut v = Vec::new();
    for (i, c) in t.char_indices() {
        let (pre, post) = (&t[..i], &t[i + 1..]);
        v.push(format!("{}{}", pre, post));
        v.push(format!("{}{}{}", pre, if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }, post));
        v.push(format!("{}{}{}", pre, (c as u8 ^ 1) as char, post));
        v.push(format!("{}X{}{}", pre, c, post));
        v.push(format!("{} {}{}", pre, c, post));
    }
    v.push(format!("{}X", t));
    v.push(format!("{} ", t));
    v.push(format!("{}\n", t));
    v.push(format!("{}{}", t, t));
    v.push(t.to_lowercase());
    v.retain(|m| !m.contains(')'));
    v
}

/// Sizes around which code tends to change its mind.
pub const SIZES: &[usize] = &[
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 23, 24, 25, 28, 30, 31, 32, 33, 36, 40, 47, 48,
    49, 50, 51, 59, 60, 61, 62, 63, 64, 65, 66, 72, 80, 90, 96, 99, 100, 101, 110, 120, 126, 127, 128, 129, 130, 150,
    192, 200, 240, 250, 254, 255, 256, 257, 258, 300, 360, 400, 499, 500, 501, 510, 511, 512, 513, 514, 600, 700, 768,
    800, 900, 999, 1_000, 1_001, 1_022, 1_023, 1_024, 1_025, 1_026, 1_500, 2_000, 2_047, 2_048, 2_049, 3_000, 4_000,
    4_095, 4_096, 4_097, 5_000, 8_000, 8_191, 8_192, 8_193, 10_000, 12_000, 15_000, 15_999, 16_000,
];

/// Verbs that nobody knows, of many lengths, of narrow and of wide characters
/// that no fixed cut can avoid.
pub fn long_verbs() -> Vec<String> {
    let mut v = Vec::new();
    for n in SIZES.iter().filter(|n| **n < 15_990) {
        v.push(format!("(*{})a", "V".repeat(*n)));
        v.push(format!("(*UTF8{})a", "8".repeat(*n)));
        v.push(format!("(*LIMIT_MATCH={})a", "5".repeat(*n)));
    }
    for shift in 0..4 {
        for n in [4, 16, 40, 300, 1_100, 3_900] {
            for c in ["\u{e9}", "\u{20ac}", "\u{1f600}"] {
                v.push(format!("(*{}{})a", "x".repeat(shift), c.repeat(n)));
                v.push(format!("(*LIMIT_MATCH={}{})a", "x".repeat(shift), c.repeat(n)));
                v.push(format!("(*{}{}", "x".repeat(shift), c.repeat(n)));
            }
        }
    }
    v
}

fn balanced(r: &mut Rng, depth: usize, budget: &mut usize, out: &mut String) {
    let n = r.below(5);
    for _ in 0..n {
        if *budget == 0 {
            return;
        }
        *budget -= 1;
        match r.below(8) {
            0 | 1 if depth > 0 => {
                out.push('(');
                balanced(r, depth - 1, budget, out);
                out.push(')');
            }
            2 => out.push('|'),
            _ => out.push(literal_char(r)),
        }
    }
}

/// A pattern in which some kinds of characters are much more frequent than
/// others.
fn bushy(r: &mut Rng, s: &mut String) {
    let w: Vec<usize> = (0..4).map(|_| [0, 1, 1, 2, 4, 8][r.below(6)]).collect();
    let total = w.iter().sum::<usize>().max(1);
    let n = if r.one_in(8) { 40 + r.below(80) } else { 4 + r.below(30) };
    let letters = 1 + r.below(3);
    let mut open = 0;
    for _ in 0..n {
        let mut k = r.below(total);
        let kind = w.iter().position(|x| {
            let here = k < *x;
            k = k.wrapping_sub(*x);
            here
        });
        match kind {
            Some(0) => {
                s.push('(');
                open += 1;
            }
            Some(1) if open > 0 => {
                s.push(')');
                open -= 1;
            }
            Some(2) => s.push('|'),
            _ if r.one_in(10) => s.push(literal_char(r)),
            _ => s.push(b"aBz"[r.below(letters)] as char),
        }
    }
    for _ in 0..open {
        s.push(')');
    }
}

/// A short pattern far inside or behind others.
fn placed(r: &mut Rng, s: &mut String) {
    let mut core = String::new();
    let mut open = 0;
    let n = 1 + r.below(6);
    for _ in 0..n {
        match r.below(6) {
            0 | 1 => {
                core.push('(');
                open += 1;
            }
            2 if open > 0 => {
                core.push(')');
                open -= 1;
            }
            3 | 4 => core.push('|'),
            _ => core.push(literal_char(r)),
        }
    }
    core.push_str(&")".repeat(open));
    let layers = 1 + r.below(3);
    for _ in 0..layers {
        let k = if r.one_in(6) { SIZES[r.below(60)] } else { 1 + r.below(9) };
        let (before, after): (String, String) = match r.below(10) {
            0 | 1 => ("(".repeat(k), ")".repeat(k)),
            2 => ("(a|".repeat(k), ")".repeat(k)),
            3 => ("(".repeat(k), "|b)".repeat(k)),
            4 => (["()", "(a)", "(|)", "(a|b)"][r.below(4)].repeat(k), String::new()),
            5 => ("|".repeat(k), String::new()),
            6 => ("ab|".repeat(k), String::new()),
            7 => (String::new(), "|c".repeat(k)),
            8 => ("x".repeat(k), String::new()),
            _ => (String::new(), "Yy".repeat(k)),
        };
        core = before + &core + &after;
        if core.len() > 600 {
            break;
        }
    }
    s.push_str(&core);
}

/// A well-formed pattern (unless its verb is bad).
pub fn good(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.one_in(8) {
        s.push_str(["(*UCP)", "(*UTF8)", "(*UTF)"][r.below(3)]);
    }
    match r.below(12) {
        8 | 9 => bushy(r, &mut s),
        10 | 11 => placed(r, &mut s),
        0 | 1 => {
            let n = 1 + r.below(8);
            for _ in 0..n {
                s.push(literal_char(r));
            }
        }
        // Literals in groups.
        2 => {
            let n = 1 + r.below(5);
            for _ in 0..n {
                let g = r.below(3);
                for _ in 0..g {
                    s.push('(');
                }
                s.push(literal_char(r));
                for _ in 0..g {
                    s.push(')');
                }
            }
        }
        3 => {
            let d = 1 + r.below(40);
            for _ in 0..d {
                s.push('(');
                if r.one_in(4) {
                    s.push(literal_char(r));
                }
            }
            for _ in 0..d {
                if r.one_in(6) {
                    s.push('|');
                }
                s.push(')');
            }
        }
        4 => {
            let mut b = 60;
            balanced(r, 8, &mut b, &mut s);
            balanced(r, 8, &mut b, &mut s);
            balanced(r, 8, &mut b, &mut s);
        }
        _ => {
            let mut b = 12;
            balanced(r, 3, &mut b, &mut s);
        }
    }
    s
}

/// A literal of a given length, with few distinct letters.
pub fn run(r: &mut Rng, n: usize) -> String {
    let k = 1 + r.below(3);
    (0..n).map(|_| (b'a' + r.below(k) as u8) as char).collect()
}

/// Any pattern.
pub fn any(r: &mut Rng) -> String {
    match r.below(12) {
        0..=4 => good(r),
        5 => {
            let n = r.below(14);
            (0..n).map(|_| *r.pick(&['a', 'b', '(', ')', '|', '*', 'U'])).collect()
        }
        6 | 7 => verb(r) + &good(r),
        // A fault in a good pattern.
        _ => {
            let mut cs: Vec<char> = good(r).chars().collect();
            let faults = 1 + r.below(2);
            for _ in 0..faults {
                let at = r.below(cs.len() + 1);
                match r.below(4) {
                    0 => cs.insert(at, '('),
                    1 => cs.insert(at, ')'),
                    2 => cs.insert(at, *r.pick(FOREIGN)),
                    _ => {
                        if let Some(p) = (0..cs.len()).find(|p| *p >= at && (cs[*p] == '(' || cs[*p] == ')')) {
                            cs.remove(p);
                        }
                    }
                }
            }
            cs.into_iter().collect()
        }
    }
}

pub fn flags(r: &mut Rng) -> u16 {
    let mut f = 0;
    for b in [1_u16, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024] {
        if r.one_in(4) {
            f |= b;
        }
    }
    if f & 0x500 == 0x500 && !r.one_in(8) {
        f &= !0x100;
    }
    f
}
