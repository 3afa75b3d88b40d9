//! Single patterns: parse tree, modes, literal shortcut and graph.

use crate::json::J;
use crate::util::{guard, points, ranges, Out, Rng};
use crate::{arr, cases, errors, gen, obj, Args};
use crate::hooks::{parse_expression, tree_expression, GraphSnapshot, Parsed, Tree, Visit};
use rescan::Flags;

const IDS: &[u32] = &[0, 1, 2, 7, 255, 65_536, 2_147_483_648, 4_294_967_295];

fn visit_code(v: &Visit) -> u32 {
    match v {
        Visit::EnterSequence(Some(c), _) => 1000 + c,
        Visit::EnterSequence(None, _) => 999,
        Visit::BetweenSequence => 1,
        Visit::LeaveSequence => 2,
        Visit::EnterAlternation => 3,
        Visit::BetweenAlternation => 4,
        Visit::LeaveAlternation => 5,
        Visit::EnterClass(_) => 6,
        Visit::DuringClass => 7,
        Visit::LeaveClass => 8,
    }
}

pub fn graph(g: &GraphSnapshot) -> J {
    let edges: Vec<J> = g.edges.iter().map(|e| arr![e.0, e.1]).collect();
    obj! {
        special: g.special.to_vec(),
        reach: J::A(g.reach.iter().map(ranges).collect()),
        reports: g.reports.clone(),
        edges: J::A(edges),
        nv: g.num_vertices,
        vac: g.is_vacuous,
        all: g.all_reports.clone(),
    }
}

fn parsed(p: &Parsed, deep: bool, f: &mut Vec<(&'static str, J)>) {
    let mut classes = Vec::new();
    let mut visits = Vec::new();
    let mut named = false;
    for v in &p.visits {
        if let Visit::EnterClass(c) = v {
            classes.push(ranges(c));
        }
        if let Visit::EnterSequence(_, true) = v {
            named = true;
        }
        visits.push(visit_code(v));
    }
    let lit: Vec<J> = p.literal.iter().flatten().map(|(c, n)| arr![*c, *n]).collect();
    f.push(("out", J::from("ok")));
    f.push(("deep", J::from(deep)));
    f.push(("visits", J::from(visits)));
    f.push(("named", J::from(named)));
    f.push(("classes", J::A(classes)));
    f.push(("mode", J::from(p.mode.to_vec())));
    f.push(("utf8", J::from(p.utf8)));
    f.push(("islit", J::from(p.literal.is_some())));
    f.push(("lit", J::A(lit)));
    f.push(("id2", J::from(p.report.to_string())));
    f.push(("quiet", J::from(p.quiet)));
    f.push(("single", J::from(p.highlander)));
    f.push(("prefilter", J::from(p.prefilter)));
    f.push(("idx2", J::from(p.index)));
    f.push(("graph", graph(&p.graph)));
}

/// What a pattern is parsed to.
pub fn outcome(idx: usize, pat: &str, fl: u16, id: u32) -> J {
    let mut f = vec![
        ("e", J::from("parse")),
        ("pat", points(pat)),
        ("fl", J::from(fl)),
        ("id", J::from(id.to_string())),
        ("idx", J::from(idx)),
    ];
    let flags = Flags::from_bits(fl).expect("flags");
    // Among other text.
    let before = ["", "(", "a|", "\u{e9}"][pat.len() % 4];
    let text = format!("{}{}{}", before, pat, [")", "|b", "z", "(", "\u{20ac}"][idx % 5]);
    let pat = &text[before.len()..before.len() + pat.len()];
    match guard(|| parse_expression(idx, pat, flags, id)) {
        Err(m) => {
            f.push(("out", J::from("panic")));
            f.push(("msg", J::from(m)));
        }
        Ok(Err(e)) => {
            f.push(("out", J::from("err")));
            f.extend(errors::read(&e).fields());
        }
        Ok(Ok(p)) => parsed(&p, pat.len() <= 1_600, &mut f),
    }
    J::O(f)
}

fn one(out: &mut Out, r: &mut Rng, pat: &str, fl: u16) {
    let id = *r.pick(IDS);
    let idx = r.below(9);
    out.about_to(&obj! { pat: points(pat), fl: fl });
    out.event(outcome(idx, pat, fl, id));
}

/// Every ASCII character, alone and in company, and characters beyond.
fn characters(out: &mut Out, r: &mut Rng) {
    for c in 0..128_u8 {
        for fl in [0, 1] {
            one(out, r, &(c as char).to_string(), fl);
            one(out, r, &format!("x({}|Y{})", c as char, c as char), fl);
        }
    }
    for c in gen::FOREIGN {
        for fl in [0, 1, 32, 64, 96] {
            one(out, r, &c.to_string(), fl);
            one(out, r, &format!("a(b{}", c), fl);
            one(out, r, &format!("(*UTF8){})", c), fl);
        }
    }
}

/// Every single flag and every pair of flags, on patterns of each kind.
fn flag_pairs(out: &mut Out, r: &mut Rng) {
    const BITS: &[u16] = &[0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024];
    for a in BITS {
        for b in BITS {
            for p in ["aB", "a|B()", "(*UCP)a", "(*UTF)a|b"] {
                one(out, r, p, a | b);
            }
        }
    }
}

/// Every set of flags.
fn flag_sets(out: &mut Out, r: &mut Rng) {
    const BITS: &[u16] = &[1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024];
    for set in 0..1_usize << BITS.len() {
        let fl = (0..BITS.len()).filter(|i| set >> i & 1 == 1).map(|i| BITS[i]).sum();
        for k in 0..2 {
            let p = ["aB", "a|B()", "(*UCP)a", "(*UTF)a|b", "()", "(", "\u{e9}"][(set + set / 7 + k * (1 + r.below(6))) % 7];
            one(out, r, p, fl);
        }
    }
}

/// Long branches of alternations.
fn branches(out: &mut Out, r: &mut Rng, n: usize) {
    let b = match r.below(4) {
        0 => "(a)".repeat(n / 3) + &"b".repeat(n % 3),
        1 => "()".repeat(n / 2) + &"b".repeat(n % 2),
        _ => gen::run(r, n),
    };
    let p = match r.below(6) {
        0 => format!("{}|a", b),
        1 => format!("a|{}", b),
        2 => format!("a|{}|b", b),
        3 => format!("({}|a)", b),
        4 => format!("b(a|{})b", b),
        _ => format!("({}|{})", &b[..b.len() / 3], &b[b.len() / 3 + b.len() % 3..]),
    };
    one(out, r, &p, 0);
}

/// Failures of patterns of wide characters, at any place in them.
fn wide(out: &mut Out, r: &mut Rng) {
    for c in ["\u{e9}", "\u{20ac}", "\u{1f600}"] {
        for shift in 0..4 {
            for n in [1, 3, 7, 15, 30, 60, 200] {
                let w = "a".repeat(shift) + &c.repeat(n);
                one(out, r, &w, 0x500);
                one(out, r, &format!("){}", w), 0);
                one(out, r, &format!("{})", w), 64);
                one(out, r, &format!("({}", w), 32);
                one(out, r, &format!("(*NO{})", w), 0);
                one(out, r, &format!("(*CR){}", w), 0);
                one(out, r, &format!("(*LIMIT_MATCH={})b", w), 1);
                one(out, r, &format!("(*UTF8){}", w), 1);
            }
        }
    }
}

/// Patterns of every kind and of many sizes. Part 0 small, 1 large, 2 with a
/// fault.
fn ladder(out: &mut Out, r: &mut Rng, part: usize) {
    for &n in gen::SIZES {
        if part == 0 && n <= 520 {
            for fl in [0, 1] {
                let p = gen::run(r, n);
                one(out, r, &p, fl);
            }
            one(out, r, &"()".repeat(n), 0);
            one(out, r, &"(a)".repeat(n), 1);
            one(out, r, &("(".repeat(n) + "B" + &")".repeat(n)), 1);
            one(out, r, &"|".repeat(n), 0);
            one(out, r, &"a|".repeat(n), 0);
            one(out, r, &format!("x({})y", "(a|b)".repeat(n.min(300))), 0);
            one(out, r, &("(a|".repeat(n) + &")".repeat(n)), 0);
            one(out, r, &format!("a({})", "|b".repeat(n)), 0);
            branches(out, r, n);
        }
        if part == 1 && n > 520 {
            let fl = r.below(2) as u16;
            let p = gen::run(r, n);
            one(out, r, &p, fl);
            one(out, r, &"()".repeat(n / 2), 0);
            one(out, r, &("(a)".repeat(n / 3) + &"b".repeat(n % 3)), fl);
            one(out, r, &"a|".repeat(n / 2), fl);
            one(out, r, &("(*UTF8)".to_string() + &"Z".repeat(n - 7)), fl);
            branches(out, r, n - 10);
        }
        if part == 2 {
            if n > 1_100 && !r.one_in(3) {
                continue;
            }
            let pre = match r.below(4) {
                0 => "a".repeat(n),
                1 => "|".repeat(n),
                2 => "()".repeat(n / 2) + &"a".repeat(n % 2),
                _ => "(".repeat(n / 2) + &")".repeat(n / 2) + &"b".repeat(n % 2),
            };
            let post = ["", "a", ")", "(", "\u{e9}", "((((", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"][r.below(7)];
            for fault in [")", "(", "\u{20ac}", "(a", "(()", "())"] {
                one(out, r, &format!("{}{}{}", pre, fault, post), 0);
            }
            let open = "(".repeat(n);
            one(out, r, &open, 0);
            one(out, r, &(open.clone() + &")".repeat(n - 1)), 0);
            one(out, r, &(open + &")".repeat(n + 1)), 1);
        }
    }
}

/// Characters of a class: mostly letters and their neighbours, now and then
/// any byte or what is none.
fn class(r: &mut Rng) -> Tree {
    let n = [1, 1, 1, 2, 2, 0, 3, 9][r.below(8)];
    let mut chars: Vec<char> = (0..n)
        .map(|_| match r.below(20) {
            0 => char::from(r.byte()),
            1 => *r.pick(&['\u{80}', '\u{b5}', '\u{c4}', '\u{e4}', '\u{ff}']),
            2 if r.one_in(3) => *r.pick(&['\u{100}', '\u{161}', '\u{17f}', '\u{212a}', '\u{ffff}', '\u{10ffff}']),
            3..=5 => *r.pick(&['@', '[', '`', '{', '0', 'A', 'z']),
            k => char::from(b"aAbBzZ"[k % 6]),
        })
        .collect();
    // The case variants of one letter.
    if n == 2 && r.one_in(2) {
        let c = char::from(b'A' + r.below(26) as u8);
        chars = vec![c, c.to_ascii_lowercase()];
        if r.one_in(2) {
            chars.reverse();
        }
    }
    Tree::Class(chars, r.one_in(3))
}

fn grow(r: &mut Rng, depth: usize, items: usize, bars: bool) -> Tree {
    let branches = if bars && r.one_in(2) { 2 + r.below(2) } else { 1 };
    Tree::Group(
        (0..branches)
            .map(|_| {
                let n = r.below(items + 1);
                (0..n).map(|_| if depth > 0 && r.one_in(4) { grow(r, depth - 1, items, bars) } else { class(r) }).collect()
            })
            .collect(),
    )
}

/// The shape of a tree and its classes.
fn shape(t: &Tree, outermost: bool, pat: &mut String, items: &mut Vec<J>) {
    match t {
        Tree::Class(chars, nocase) => {
            pat.push('a');
            let chars: Vec<u32> = chars.iter().map(|c| *c as u32).collect();
            items.push(obj! { chars: chars, nocase: *nocase });
        }
        Tree::Group(branches) => {
            pat.push_str(if outermost { "" } else { "(" });
            for (i, b) in branches.iter().enumerate() {
                pat.push_str(if i > 0 { "|" } else { "" });
                b.iter().for_each(|x| shape(x, false, pat, items));
            }
            pat.push_str(if outermost { "" } else { ")" });
        }
    }
}

/// Parse trees made by hand.
fn trees(out: &mut Out, r: &mut Rng, n: usize) {
    for i in 0..n {
        let t = if i % 10 == 9 {
            let len = gen::SIZES[r.below(60)].min(300);
            Tree::Group(vec![(0..len).map(|_| Tree::Class(vec![char::from(b"aBz0"[r.below(4)])], r.one_in(2))).collect()])
        } else {
            grow(r, 2, 4, i % 2 == 0)
        };
        let (mut pat, mut items) = (String::new(), Vec::new());
        shape(&t, true, &mut pat, &mut items);
        let mut f = vec![("e", J::from("tree")), ("pat", points(&pat)), ("items", J::A(items.clone()))];
        out.about_to(&obj! { tree: points(&pat), items: J::A(items) });
        match guard(|| tree_expression(&t)) {
            Err(m) => {
                f.push(("out", J::from("panic")));
                f.push(("msg", J::from(m)));
            }
            Ok(Err(e)) => {
                f.push(("out", J::from("err")));
                f.extend(errors::read(&e).fields());
            }
            Ok(Ok(p)) => parsed(&p, true, &mut f),
        }
        out.event(J::O(f));
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let mut r = Rng::new(a.seed);
    if let Some(path) = &a.cases {
        for l in cases::lines(path) {
            let p = cases::text(&l[0]);
            let fl = gen::flags(&mut r) & !1;
            one(&mut out, &mut r, &p, 0);
            one(&mut out, &mut r, &p, 1);
            match r.below(3) {
                0 => one(&mut out, &mut r, &p, fl),
                1 => one(&mut out, &mut r, &format!("(*UCP){}", p), 0),
                _ => one(&mut out, &mut r, &format!("(*UTF8){}", p), fl),
            }
        }
    }
    // --key selects the parts that do not depend on chance.
    if a.key == 0 {
        characters(&mut out, &mut r);
    }
    if a.key == 1 {
        for v in gen::all_verbs() {
            let fl = if r.one_in(2) { 0 } else { gen::flags(&mut r) };
            one(&mut out, &mut r, &v, fl);
        }
        flag_pairs(&mut out, &mut r);
        flag_sets(&mut out, &mut r);
    }
    if a.key == 2 {
        for v in gen::long_verbs() {
            one(&mut out, &mut r, &v, 0);
        }
    }
    if (3..6).contains(&a.key) {
        ladder(&mut out, &mut r, a.key - 3);
        if a.key == 5 {
            wide(&mut out, &mut r);
        }
    }
    if a.key == 6 {
        trees(&mut out, &mut r, a.n);
        return out.finish();
    }
    for _ in 0..a.n {
        let p = gen::any(&mut r);
        let fl = if r.one_in(2) { r.below(2) as u16 } else { gen::flags(&mut r) };
        one(&mut out, &mut r, &p, fl);
    }
    // A few long ones.
    for _ in 0..(a.n / 60) {
        let n = 200 + r.below(300);
        let mut p = String::new();
        while p.len() < n {
            p.push_str(&gen::good(&mut r).replace("(*", "(x"));
        }
        let fl = r.below(2) as u16;
        one(&mut out, &mut r, &p, fl);
    }
    out.finish();
}
