//! Compiles.

use super::engine::{buffer, mode, MODES};
use super::snap;
use crate::errors::{self, Told};
use crate::json::J;
use crate::util::{guard, points, Out, Rng};
use crate::{arr, cases, gen, obj, Args};
use crate::hooks::{compile_with_limits, database_info, record, scans, take_steps, Limits, Snapshot};
use rescan::{compile, compile_multi, CompileError, Database, Flags};
use std::cell::Cell;
use std::ops::Range;

const IDS: &[u32] = &[0, 1, 2, 7, 4_294_967_295];

/// Arguments of a compile. Lists shorter than their count are repeated.
#[derive(Clone)]
pub struct Call {
    pub pats: Vec<String>,
    pub flags: Vec<u16>,
    pub ids: Vec<u32>,
    pub n: usize,
    pub nf: usize,
    pub ni: usize,
    pub mode: &'static str,
    pub lim: Limits,
    pub entry: Entry,
    /// State only at the end.
    bulk: bool,
    /// Judged as a whole.
    whole: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Entry {
    Single,
    Multi,
    WithLimits,
}

impl Call {
    pub fn of(pats: Vec<String>, flags: Vec<u16>, ids: Vec<u32>) -> Call {
        let n = pats.len();
        Call {
            pats,
            flags,
            ids,
            n,
            nf: n,
            ni: n,
            mode: "block",
            lim: Limits::default(),
            entry: Entry::WithLimits,
            bulk: false,
            whole: false,
        }
    }
    /// n times the same.
    fn repeated(pat: &str, flags: u16, id: u32, n: usize) -> Call {
        let mut c = Call::of(vec![pat.to_string()], vec![flags], vec![id]);
        c.n = n;
        c.nf = n;
        c.ni = n;
        c.bulk = true;
        c
    }
    fn json(&self) -> Vec<(&'static str, J)> {
        let ids: Vec<String> = self.ids.iter().map(ToString::to_string).collect();
        match obj! {
            e: "begin",
            pats: J::A(self.pats.iter().map(|p| points(p)).collect()),
            fl: self.flags.clone(),
            ids: ids,
            n: self.n,
            nf: self.nf,
            ni: self.ni,
            mode: self.mode,
            lim: snap::limits(&self.lim),
        } {
            J::O(v) => v,
            _ => unreachable!(),
        }
    }
}

thread_local! {
    static CALLS: Cell<usize> = Cell::new(0);
}

/// Where the patterns lie among others in one text, which differs from call to
/// call.
fn laid_out(pats: &[String]) -> (String, Vec<Range<usize>>) {
    let k = CALLS.with(|c| c.replace(c.get() + 1));
    let mut text = "x".repeat(k / 36 % 8);
    let at = pats
        .iter()
        .enumerate()
        .map(|(i, p)| {
            text.push_str(["", "(", "a|", "(*UTF8)", "\u{e9}", "\\"][(k + i) % 6]);
            let from = text.len();
            text.push_str(p);
            text.push_str([")", "|b", "z", "(", "\u{20ac}", "\0"][(k / 6 + i) % 6]);
            from..from + p.len()
        })
        .collect();
    (text, at)
}

pub fn compile_call(c: &Call) -> Result<Database, CompileError> {
    let (text, at) = laid_out(&c.pats);
    let pats: Vec<&str> = at.iter().map(|a| &text[a.clone()]).cycle().take(c.n).collect();
    let flags: Vec<Flags> = c.flags.iter().map(|f| Flags::from_bits(*f).unwrap()).cycle().take(c.nf).collect();
    let ids: Vec<u32> = c.ids.iter().copied().cycle().take(c.ni).collect();
    let m = mode(c.mode);
    match c.entry {
        Entry::Single => compile(pats[0], flags[0], &m),
        Entry::Multi => compile_multi(&pats, &flags, &ids, &m),
        Entry::WithLimits => compile_with_limits(&pats, &flags, &ids, &m, &c.lim),
    }
}

pub fn run_call(c: &Call) -> Result<(Result<Database, CompileError>, Vec<Snapshot>), String> {
    guard(|| record(c.bulk, || compile_call(c)))
}

/// Patterns that the compile may have got to, without its state.
fn more(out: &mut Out, c: &Call, from: usize) {
    if c.n < 100_000 && !c.whole {
        for _ in from..c.n {
            out.event(obj! { e: "more" });
        }
    }
}

/// The first of those with the same key (from 1; 0 for none), and how many
/// keys there were before.
fn firsts<K: Ord>(n: usize, key: impl Fn(usize) -> Option<K>) -> (Vec<usize>, Vec<usize>) {
    let mut known = std::collections::BTreeMap::new();
    let mut first = vec![0; n];
    let mut rank = vec![0; n];
    for i in 0..n {
        if let Some(k) = key(i) {
            let new = (i + 1, known.len());
            let at = *known.entry(k).or_insert(new);
            first[i] = at.0;
            rank[i] = at.1;
        }
    }
    (first, rank)
}

/// Which pattern was the first with an id, report or key. The specification
/// verifies it.
fn seen(c: &Call) -> J {
    let id = |i: usize| c.ids[i % c.ids.len()];
    let flag = |i: usize, f: u16| c.flags[i % c.flags.len()] & f != 0;
    let string = |i: usize| {
        let p = c.pats[i % c.pats.len()].trim_start_matches("(*UTF8)");
        !p.contains('|') && p.contains(|x| x != '(' && x != ')') && c.lim.allow_literal && c.lim.shortcut_literals
    };
    let ids = firsts(c.n, |i| Some(id(i)));
    let reps = firsts(c.n, |i| Some((id(i), flag(i, 0x400))).filter(|_| string(i)));
    let keys = firsts(c.n, |i| Some(id(i)).filter(|_| string(i) && flag(i, 8)));
    obj! { ids: ids.0, idno: ids.1, reps: reps.0, repno: reps.1, keys: keys.0, keyno: keys.1 }
}

fn record_call(out: &mut Out, r: &mut Rng, c: &Call) {
    let blind = Call { bulk: true, ..c.clone() };
    let c = if cfg!(vp_public) { &blind } else { c };
    if cfg!(vp_public) && c.entry == Entry::WithLimits && c.lim != Limits::default() {
        return;
    }
    let begin = c.json();
    out.about_to(&J::O(begin.clone()));
    let got = run_call(c);
    out.event(J::O(begin));
    let mut f = vec![("e", J::from(if c.whole { "whole" } else { "end" }))];
    if c.whole {
        f.push(("w", seen(c)));
    }
    match got {
        Err(m) => {
            for s in take_steps() {
                out.event(obj! { e: "added", snap: snap::state(&s) });
            }
            more(out, c, 0);
            f.push(("out", J::from("panic")));
            f.extend(Told::none(&m).fields());
        }
        Ok((Err(e), steps)) => {
            for s in &steps {
                out.event(obj! { e: "added", snap: snap::state(s) });
            }
            more(out, c, steps.len());
            f.push(("out", J::from("err")));
            let mut told = errors::read(&e);
            told.msg = told.msg.chars().take(200).collect();
            f.extend(told.fields());
        }
        Ok((Ok(db), mut steps)) => {
            let last = steps.pop();
            if c.bulk {
                more(out, c, 0);
            }
            for s in &steps {
                out.event(obj! { e: "added", snap: snap::state(s) });
            }
            let before = database_info(&db);
            let mut ok = true;
            let mut msg = String::new();
            for _ in 0..2 {
                let b = buffer(r);
                match guard(|| scans(&db, &b)) {
                    Ok(true) => {}
                    Ok(false) => ok = false,
                    Err(m) => {
                        ok = false;
                        msg = m;
                    }
                }
            }
            let after = database_info(&db);
            f.push(("out", J::from("ok")));
            f.extend(Told::none(&msg).fields());
            f.push(("snap", last.map_or_else(snap::nothing, |s| snap::state(&s))));
            f.push(("dbmode", J::from(before.1)));
            f.push(("engine", J::from(before.0)));
            f.push(("scan", J::from(ok)));
            f.push(("after", arr![after.1, after.0]));
        }
    }
    out.event(J::O(f));
}

/// One pattern with flags.
fn pattern(r: &mut Rng, valid: bool) -> String {
    if !valid && r.one_in(3) {
        return gen::any(r);
    }
    match r.below(8) {
        0..=2 => {
            let n = 1 + r.below(6);
            gen::run(r, n)
        }
        3 => {
            // Around the length limit of the small-buffer engine.
            let n = 66 + r.below(8);
            gen::run(r, n)
        }
        _ => gen::good(r),
    }
}

fn limits(r: &mut Rng, n: usize) -> Limits {
    let mut l = Limits::default();
    if r.one_in(2) {
        return l;
    }
    l.flood_as_puffette = r.one_in(2);
    if r.one_in(6) {
        l.allow_literal = false;
    }
    if r.one_in(6) {
        l.shortcut_literals = false;
    }
    if r.one_in(3) {
        l.small_write_largest_buffer = r.below(8);
    }
    if r.one_in(8) {
        l.allow_small_write = false;
    }
    if r.one_in(6) {
        l.small_write_max_patterns = (n + 1).saturating_sub(r.below(3));
    }
    if r.one_in(4) {
        l.small_write_max_literals = r.below(5);
    }
    if r.one_in(10) {
        l.limit_pattern_count = (n + 1).saturating_sub(r.below(3));
    }
    if r.one_in(8) {
        l.limit_pattern_length = r.below(16);
    }
    if r.one_in(4) {
        l.limit_report_count = r.below(6);
    }
    l
}

pub fn random_call(r: &mut Rng) -> Call {
    let n = 1 + r.below(8);
    let valid = !r.one_in(4);
    let pool = if r.one_in(2) { IDS.len() } else { 2 };
    let agree: Vec<bool> = IDS.iter().map(|_| r.one_in(2)).collect();
    let stubborn = r.one_in(8);
    let mut pats = Vec::<String>::new();
    let mut flags = Vec::new();
    let mut ids = Vec::new();
    for i in 0..n {
        let mut p = pattern(r, valid);
        if i > 0 && r.one_in(4) {
            // One seen before, with other flags or another id.
            p = pats[r.below(i)].clone();
        }
        pats.push(p);
        let k = r.below(pool);
        ids.push(IDS[k]);
        let mut f = match r.below(4) {
            0 => gen::flags(r),
            1 => 0,
            2 => 1,
            _ => (r.below(2) * 0x400 + r.below(2)) as u16,
        };
        if valid && f & 0x500 == 0x500 {
            f &= !0x100;
        }
        let odd = stubborn && r.one_in(4);
        f = if agree[k] ^ odd { f | 8 } else { f & !8 };
        flags.push(f);
    }
    let mut c = Call::of(pats, flags, ids);
    c.mode = *r.pick(MODES);
    c.lim = limits(r, n);
    if c.lim == Limits::default() {
        c.entry = if r.one_in(2) { Entry::Multi } else { Entry::WithLimits };
    }
    if r.one_in(20) {
        c.n = 1;
        c.nf = 1;
        c.ni = 1;
        c.pats.truncate(1);
        c.flags.truncate(1);
        c.ids = vec![0];
        c.lim = Limits::default();
        c.entry = Entry::Single;
    }
    if r.one_in(25) {
        match r.below(5) {
            0 => c.nf = r.below(c.n),
            1 => c.ni = r.below(c.n),
            2 => c.nf += 1,
            3 => c.ni += 1,
            _ => {
                c.nf += 1;
                c.ni += 1;
            }
        }
        c.entry = Entry::WithLimits;
    }
    if r.one_in(60) {
        c.n = 0;
        if r.one_in(2) {
            c.nf = 0;
            c.ni = 0;
        }
        c.entry = Entry::WithLimits;
    }
    c
}

/// A case from the specification: patterns, flags, ids, mode, limits, number of flags.
pub fn from_case(l: &[String]) -> Call {
    let list = |f: &str| -> Vec<String> {
        if f == "-" {
            vec![]
        } else {
            f.split('/').map(str::to_string).collect()
        }
    };
    let pats = list(&l[0]).iter().map(|p| cases::text(if p.is_empty() { "-" } else { p })).collect();
    let flags = list(&l[1]).iter().map(|f| f.parse().expect("flags")).collect();
    let ids = list(&l[2]).iter().map(|f| f.parse().expect("id")).collect();
    let mut c = Call::of(pats, flags, ids);
    c.mode = MODES.iter().find(|m| **m == l[3]).expect("mode");
    let v: Vec<usize> = l[4].split(',').map(|x| x.parse().expect("limit")).collect();
    c.lim.allow_literal = v[0] == 1;
    c.lim.shortcut_literals = v[1] == 1;
    c.lim.limit_pattern_count = v[2];
    c.lim.limit_pattern_length = v[3];
    c.lim.limit_report_count = v[4];
    c.lim.allow_small_write = v[5] == 1;
    c.lim.small_write_max_patterns = v[6];
    c.lim.small_write_max_literals = v[7];
    c.lim.small_write_largest_buffer = v[8];
    c.nf = l[5].parse().expect("flags");
    c
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let mut r = Rng::new(a.seed);
    if let Some(path) = &a.cases {
        for l in cases::lines(path) {
            record_call(&mut out, &mut r, &from_case(&l));
        }
    }
    for _ in 0..a.n {
        let c = random_call(&mut r);
        record_call(&mut out, &mut r, &c);
    }
    out.finish();
}

/// Compiles at and just over the limits that a compile has unless told
/// otherwise.
pub fn run_limits(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let mut r = Rng::new(a.seed);
    let part = |k: usize| a.key == k || a.key > 8;
    if part(0) {
        // Length of a pattern in bytes.
        for n in [15_999, 16_000, 16_001, 17_000] {
            for unit in ["a", "()", "a|", "(*UCP)a"] {
                let mut p = String::new();
                while p.len() + unit.len() <= n {
                    p.push_str(if p.is_empty() || unit.len() < 3 { unit } else { "b" });
                }
                while p.len() < n {
                    p.push('c');
                }
                let mut c = Call::of(vec![p], vec![r.below(2) as u16], vec![1]);
                c.entry = Entry::Multi;
                c.bulk = true;
                record_call(&mut out, &mut r, &c);
            }
            // Several bytes for one character.
            for (k, w) in ["\u{e9}", "\u{20ac}", "\u{1f600}"].iter().enumerate() {
                for shift in 0..4 {
                    let p = "a".repeat(shift) + &w.repeat((n - shift) / w.len());
                    for fl in [[0, 0x500, 1][shift % 3], 0x20, 1 << ((k * 4 + shift + n) % 11)] {
                        let mut c = Call::of(vec!["b".to_string(), p.clone()], vec![fl & 8, fl], vec![0, 0]);
                        c.entry = Entry::Multi;
                        c.bulk = true;
                        record_call(&mut out, &mut r, &c);
                    }
                }
            }
        }
    }
    if part(0) {
        // The same with a limit of any size.
        for n in 1..40 {
            for i in 0..12 {
                let p: String = (0..n).map(|_| *r.pick(&['a', '\u{e9}', '\u{20ac}', '\u{1f600}'])).collect();
                let fl = if i == 11 { 0x60 } else { 1 << i };
                let mut c = Call::of(vec!["b".to_string(), p.clone()], vec![fl & 8, fl], vec![0, 0]);
                c.entry = Entry::WithLimits;
                c.lim.limit_pattern_length = (p.len() + 1).saturating_sub(r.below(3)).max(1);
                if r.one_in(3) {
                    c.lim.limit_pattern_length = n;
                }
                record_call(&mut out, &mut r, &c);
            }
        }
        for w in ["\u{e9}", "\u{20ac}", "\u{1f600}"] {
            for shift in 0..4 {
                for n in [1, 9, 25, 70, 300] {
                    let p = "a".repeat(shift) + &w.repeat(n);
                    for (p, fl) in [(p.clone(), 0x500), (format!("){}", p), 0), (format!("(*NO{})", p), 8), (p, 8)] {
                        let mut c = Call::of(vec!["b".to_string(), p], vec![0, fl], vec![0, 0]);
                        c.entry = Entry::Multi;
                        record_call(&mut out, &mut r, &c);
                    }
                }
            }
        }
    }
    if part(1) {
        // Buffer of the small-write engine, around the limit and words.
        for n in [1, 31, 32, 63, 64, 65, 69, 70, 71, 72, 127, 128, 200] {
            let p = gen::run(&mut r, n);
            let q = gen::run(&mut r, n);
            let mut c = Call::of(vec![p.clone(), p, q], vec![0, 1, 0x400], vec![0, 0, 0]);
            c.entry = Entry::Multi;
            record_call(&mut out, &mut r, &c);
        }
    }
    if part(2) {
        // Number of literals.
        for n in [9_999, 10_000] {
            let mut c = Call::repeated("a", 0, 0, n);
            c.entry = Entry::Multi;
            record_call(&mut out, &mut r, &c);
        }
        // Number of patterns (and with it, of literals).
        for p in ["a", "a|b"] {
            let mut c = Call::repeated(p, 1, 0, 10_001);
            c.entry = Entry::Multi;
            record_call(&mut out, &mut r, &c);
        }
    }
    if part(3) {
        // Literals past the limit of literals but not of patterns.
        let mut c = Call::repeated("b", 0, 0, 10_001);
        c.lim.small_write_max_patterns = 20_000;
        record_call(&mut out, &mut r, &c);
        let mut c = Call::repeated("b", 0, 0, 10_001);
        c.lim.small_write_max_patterns = 10_001;
        c.lim.small_write_max_literals = 10_001;
        record_call(&mut out, &mut r, &c);
    }
    if part(4) {
        // Number of patterns: refused at once.
        for (n, nf) in [(8_000_001, 8_000_001), (8_000_001, 8_000_000)] {
            let mut c = Call::repeated("a", 0, 0, n);
            c.nf = nf;
            c.entry = Entry::Multi;
            record_call(&mut out, &mut r, &c);
        }
    }
    if part(5) {
        // Vertices of a table: 113 literals of 70 characters and one of 71
        // are not told apart by their length alone; then to the last vertex.
        let mut both: Vec<(String, u16)> = Vec::new();
        for fl in [0_u16, 1] {
            let mut pats = Vec::new();
            let firsts: Vec<u8> = (0..128).filter(|c| ![b'(', b')', b'|'].contains(c) && !(b'a'..=b'z').contains(c)).collect();
            let mut made = 1;
            'fill: for second in [b'Q', b'W'] {
                for f in &firsts {
                    // 69 vertices after the first character.
                    let shared = pats.iter().any(|p: &String| p.as_bytes()[0] == *f);
                    let new = if shared { 69 } else { 70 };
                    if made + new > 8_000 {
                        break 'fill;
                    }
                    made += new;
                    pats.push((*f as char).to_string() + &(second as char).to_string().repeat(69));
                }
            }
            // Exactly full.
            let room = 8_000 - made;
            let p0 = pats[0].clone();
            if room > 0 {
                pats.push(p0[..1].to_string() + &"Z".repeat(room));
            }
            let full = pats.len();
            pats.push(p0[..1].to_string() + &"Z".repeat(room / 2));
            pats.push(p0.clone());
            pats.push("Q".to_string() + &"Z".repeat(3));
            pats.push("x".to_string());
            both.extend(pats[..full].iter().map(|p| (p.clone(), fl)));
            let n = pats.len();
            for keep in [full, n] {
                let mut c = Call::of(pats[..keep].to_vec(), vec![fl; keep], (0..keep as u32).map(|i| i % 3).collect());
                c.bulk = true;
                c.entry = Entry::Multi;
                record_call(&mut out, &mut r, &c);
            }
        }
        // Both tables at once.
        let n = both.len();
        let by_turns = |i: usize| both[if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }].clone();
        let sets: [Vec<(String, u16)>; 2] = [both.clone(), (0..n).map(by_turns).collect()];
        for (k, set) in sets.iter().enumerate() {
            let mut c = Call::of(
                set.iter().map(|p| p.0.clone()).collect(),
                set.iter().map(|p| p.1).collect(),
                (0..n as u32).map(|i| i % 5).collect(),
            );
            c.bulk = true;
            c.entry = if k == 0 { Entry::Multi } else { Entry::WithLimits };
            record_call(&mut out, &mut r, &c);
        }
    }
    if part(6) {
        // Many match ids and reports, many of them single-match.
        let n = 700;
        let pats: Vec<String> = (0..n).map(|i| format!("p{}", i % 90)).collect();
        let ids: Vec<u32> = (0..n).map(|i| (i as u32 * 7919) % 300).collect();
        let flags: Vec<u16> = ids.iter().map(|i| if i % 3 == 0 { 8 } else { 0 } + r.below(2) as u16).collect();
        let mut c = Call::of(pats, flags, ids);
        c.bulk = true;
        record_call(&mut out, &mut r, &c);
        c.lim.limit_report_count = 299;
        record_call(&mut out, &mut r, &c);
        // A conflict late in a long list.
        c.lim = Limits::default();
        c.flags[650] ^= 8;
        record_call(&mut out, &mut r, &c);
    }
    out.finish();
}

/// Calls of many sizes in every respect.
pub fn run_ladder(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let mut r = Rng::new(a.seed);
    match a.key {
        0 => ladder_sets(&mut out, &mut r, 0),
        6 => ladder_sets(&mut out, &mut r, 1),
        1 => ladder_errors(&mut out, &mut r),
        2 => ladder_lengths(&mut out, &mut r),
        7 => ladder_last(&mut out, &mut r),
        8 => ladder_whole(&mut out, &mut r, 0..4),
        9 => ladder_whole(&mut out, &mut r, 4..7),
        10 => ladder_whole(&mut out, &mut r, 7..10),
        3 => ladder_sharing(&mut out, &mut r),
        4 => {
            ladder_flags(&mut out, &mut r);
            at_odds(&mut out, &mut r);
        }
        _ => ladder_huge(&mut out, &mut r),
    }
    out.finish();
}

/// Flags that change little, for all patterns or some.
fn season(r: &mut Rng, c: &mut Call) {
    if r.one_in(3) {
        return;
    }
    let f = gen::flags(r) & !0x509;
    let some = r.one_in(2);
    for x in &mut c.flags {
        if *x & 0x500 != 0x500 && !(some && r.one_in(2)) {
            *x |= f;
        }
    }
    if r.one_in(3) {
        c.mode = *r.pick(MODES);
    }
}

/// Match ids k, or as many others from the whole range.
fn spread(k: usize, wide: bool) -> u32 {
    if wide {
        (k as u32).wrapping_mul(0x9e37_79b1) ^ 0x8000_0001
    } else {
        k as u32
    }
}

/// The i-th pattern of a large set.
fn nth(i: usize, r: &mut Rng) -> String {
    match r.below(8) {
        0 => "a|b".to_string(),
        1 => "()".to_string(),
        2 => format!("(d)(u){}", i % 3),
        3 => format!("(*UTF8)v{}", i),
        4 => String::new(),
        _ => format!("p{}", i),
    }
}

fn ladder_sets(out: &mut Out, r: &mut Rng, half: usize) {
    for &n in gen::SIZES.iter().skip(half).step_by(2).filter(|n| **n <= 2_100) {
        // How many match ids.
        for k in [1, 2 + r.below(9), n / 2 + 1, n] {
            let single = r.below(4);
            let wide = r.one_in(2);
            let mut c = Call::of((0..n).map(|i| nth(i, r)).collect(), vec![], vec![]);
            for i in 0..n {
                let id = i % k;
                c.ids.push(if r.one_in(2) || k < 3 { id as u32 } else { (i / (n / k).max(1)) as u32 });
                let id = *c.ids.last().unwrap();
                *c.ids.last_mut().unwrap() = spread(id as usize, wide);
                let h = match single {
                    0 => false,
                    1 => true,
                    2 => id % 2 == 0,
                    _ => id % 7 == 3,
                };
                let f = [0, 1, 0x400, 0x80][r.below(4)];
                c.flags.push(if h { f | 8 } else { f });
            }
            c.mode = *r.pick(MODES);
            c.bulk = true;
            c.entry = if r.one_in(2) { Entry::Multi } else { Entry::WithLimits };
            if n > 140 && !r.one_in(if n > 520 { 8 } else { 3 }) {
                continue;
            }
            season(r, &mut c);
            record_call(out, r, &c);
        }
    }
}

const FAULTS: &[(&str, u16)] = &[
    ("a)", 0), ("(b", 0), ("a\u{e9}", 1), ("(*NO)a", 0), ("(*CR)a", 8), ("a", 0x500), ("a|b", 0x500), ("((a)", 0x500),
    ("a)", 0x500), ("(*CR)", 0x500), ("(*NO)", 0x508), ("\u{20ac}", 0x501),
];

fn ladder_errors(out: &mut Out, r: &mut Rng) {
    for &n in gen::SIZES.iter().filter(|n| **n <= 1_100) {
        let good: Vec<String> = (0..n).map(|i| if i % 3 == 2 { "x|y".to_string() } else { format!("p{}", i) }).collect();
        let rare = if n > 520 { 8 } else if n > 140 { 4 } else { 1 };
        for (bad, fl) in FAULTS {
            if !r.one_in(2 * rare) {
                continue;
            }
            let mut c = Call::of(good.clone(), vec![0; n], (0..n).map(|i| spread(i / 2, n % 2 == 0)).collect());
            // The last is bad; or one after others, and later ones are too.
            let at = if r.one_in(3) { r.below(n) } else { n - 1 };
            c.pats[at] = bad.to_string();
            c.flags[at] = *fl;
            if fl & 8 != 0 {
                c.ids[at] = 1_000_000;
            }
            if at + 1 < n {
                c.pats[n - 1] = "z)(".to_string();
            }
            c.bulk = true;
            c.entry = if r.one_in(2) { Entry::Multi } else { Entry::WithLimits };
            season(r, &mut c);
            record_call(out, r, &c);
        }
        if n > 1 {
            // Conflicts, with the first user of the id near or far.
            for first in [0, n / 2, n - 2] {
                if !r.one_in(rare) {
                    continue;
                }
                let mut c = Call::of(good.clone(), vec![0; n], (0..n).map(|i| spread(i * 3 + 5, n % 2 == 1)).collect());
                c.ids[n - 1] = c.ids[first];
                if r.one_in(2) {
                    c.flags[n - 1] = 8;
                } else {
                    c.flags = vec![8; n];
                    c.flags[n - 1] = 0;
                }
                c.bulk = true;
                season(r, &mut c);
                record_call(out, r, &c);
            }
            // One report too many, or just not.
            for room in [n - 1, n] {
                if !r.one_in(rare) {
                    continue;
                }
                let mut c = Call::of((0..n).map(|i| format!("q{}", i)).collect(), vec![0], (0..n as u32).collect());
                c.nf = n;
                c.lim.limit_report_count = room;
                c.bulk = true;
                season(r, &mut c);
                record_call(out, r, &c);
            }
            // One pattern too many, or just not.
            for room in [n - 1, n] {
                if !r.one_in(rare) {
                    continue;
                }
                let mut c = Call::repeated("a|b", 0, 3, n);
                c.lim.limit_pattern_count = room;
                season(r, &mut c);
                record_call(out, r, &c);
            }
            // One byte too many, or just not.
            for room in [n - 1, n] {
                if !r.one_in(rare) {
                    continue;
                }
                let mut c = Call::of(vec!["ok".to_string(), "k".repeat(n)], vec![0, 1], vec![1, 2]);
                c.lim.limit_pattern_length = room.max(2);
                c.bulk = true;
                season(r, &mut c);
                record_call(out, r, &c);
            }
        }
    }
}

fn ladder_lengths(out: &mut Out, r: &mut Rng) {
    for &n in gen::SIZES {
        let long = gen::run(r, n);
        let other = gen::run(r, n);
        let grouped = if n < 5_000 { long.chars().map(|c| format!("({})", c)).collect() } else { long.clone() };
        for (k, largest) in [70, n, n - 1].iter().enumerate() {
            let mut c = match (k + r.below(3)) % 3 {
                0 => Call::of(vec!["ab".to_string(), long.clone(), other.clone()], vec![0, 0, 1], vec![1, 2, 2]),
                1 => Call::of(vec![grouped.clone(), "zz".to_string(), long.clone()], vec![1, 1, 0], vec![0, 0, 0]),
                _ => Call::of(vec![long.clone() + "e", other.clone(), long.clone()], vec![0, 0x400, 8], vec![9, 9, 8]),
            };
            c.lim.small_write_largest_buffer = *largest;
            c.bulk = n > 40;
            season(r, &mut c);
            record_call(out, r, &c);
        }
        if n > 1 {
            // The shortest string first, last and in the middle.
            let mut ps = vec![long.clone(), gen::run(r, n - 1), other.clone() + "q"];
            for _ in 0..3 {
                ps.rotate_left(1);
                let mut c = Call::of(ps.clone(), vec![0, 1, 0], vec![0, 0, 0]);
                season(r, &mut c);
                record_call(out, r, &c);
            }
        }
    }
}

/// The shortest string of a set as its last one, in every way a pattern can
/// be special.
fn ladder_last(out: &mut Out, r: &mut Rng) {
    const WAYS: &[(&str, u16, bool)] = &[
        ("z", 0, false), ("z", 0x400, false), ("Z", 1, false), ("z", 8, false), ("(z)", 0x80, false), ("z", 0x408, false),
        ("(*UTF8)z", 0, false), ("z", 0, true), ("z", 0x400, true), ("(z)", 0x40, false), ("p", 0, true), ("5", 1, false),
    ];
    for (i, &n) in gen::SIZES.iter().enumerate().filter(|(_, n)| **n <= 2_100) {
        for (k, (p, fl, known)) in WAYS.iter().enumerate() {
            if n > 130 && (i + k) % if n > 520 { 6 } else { 3 } != 0 {
                continue;
            }
            let wide = r.one_in(2);
            let mut pats: Vec<String> = (0..n).map(|j| format!("pq{}", j % 1_000)).collect();
            let mut ids: Vec<u32> = (0..n).map(|j| spread(j, wide)).collect();
            let mut flags = vec![r.below(2) as u16 * 0x80; n];
            pats.push(p.to_string());
            ids.push(if *known { ids[r.below(n)] } else { spread(n, wide) });
            flags.push(*fl);
            let mut c = Call::of(pats, flags, ids);
            c.bulk = true;
            c.entry = if r.one_in(2) { Entry::Multi } else { Entry::WithLimits };
            c.mode = *r.pick(MODES);
            record_call(out, r, &c);
        }
    }
}

fn ladder_sharing(out: &mut Out, r: &mut Rng) {
    let letters: Vec<char> = (0..128_u8).map(|c| c as char).filter(|c| !"()|".contains(*c)).collect();
    for fl in [0_u16, 1] {
        for pre in ["", "P", "Qr", "longer prefix ", "(*"] {
            let mut pats: Vec<String> = letters.iter().map(|c| format!("{}{}", pre, c)).collect();
            if r.one_in(2) {
                pats.reverse();
            }
            pats.extend(letters.iter().map(|c| format!("{}{}{}", pre, c, c)));
            pats.extend(letters.iter().step_by(3).map(|c| format!("{}{}", pre, c)));
            pats.push(pre.to_string() + "tail");
            let n = pats.len();
            let mut c = Call::of(pats, vec![fl; n], (0..n as u32).map(|i| i % 11).collect());
            c.bulk = true;
            season(r, &mut c);
            record_call(out, r, &c);
        }
        // One literal, many reports.
        for n in [9, 17, 33, 65, 129, 257, 300] {
            let mut c = Call::of(vec!["same".to_string()], vec![fl], (0..n).rev().map(|i| spread(i, n % 2 == 0)).collect());
            c.n = n;
            c.nf = n;
            c.bulk = true;
            season(r, &mut c);
            record_call(out, r, &c);
        }
        // Every prefix of a literal, longest first and shortest first.
        let word: String = (0..70).map(|i| letters[(i * 7) % letters.len()]).collect();
        let mut pats: Vec<String> = (1..=70).map(|n| word.chars().take(n).collect()).collect();
        for _ in 0..2 {
            let n = pats.len();
            let mut c = Call::of(pats.clone(), vec![fl; n], (0..n as u32).map(|i| i % 3).collect());
            c.bulk = true;
            season(r, &mut c);
            record_call(out, r, &c);
            pats.reverse();
        }
        // A binary tree of literals.
        let mut pats = Vec::new();
        for d in 1..8 {
            for b in 0..1 << d {
                pats.push((0..d).map(|i| if b >> i & 1 == 1 { 'X' } else { 'y' }).collect::<String>());
            }
        }
        let n = pats.len();
        let mut c = Call::of(pats, vec![fl, fl ^ 1, fl, fl], (0..n as u32).map(|i| i % 5).collect());
        c.nf = n;
        c.bulk = true;
        season(r, &mut c);
        record_call(out, r, &c);
    }
}

/// Every pair of flags with patterns of every kind, alone and behind others;
/// sets that hold two which do not go together.
fn ladder_flags(out: &mut Out, r: &mut Rng) {
    const BITS: &[u16] = &[0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024];
    const KINDS: &[&str] = &[
        "aB", "x|y", "", "()", "(*UCP)aB", "(*UTF8)a|b", "(", "a)", "(a", "\u{e9}", "(*CR)a", "(*WHAT)a", "(*LIMIT_MATCH=1)",
    ];
    for a in BITS {
        for b in BITS {
            for k in KINDS {
                let f = a | b;
                let mut c = Call::of(vec![k.to_string()], vec![f], vec![0]);
                if r.one_in(2) {
                    let pats = vec!["Q".to_string(), "m|n".to_string(), k.to_string(), "R)".to_string()];
                    let n = pats.len() - r.below(2);
                    c = Call::of(pats[..n].to_vec(), [f & 8, f & 8 | 1, f, f][..n].to_vec(), vec![4; n]);
                }
                c.entry = match r.below(3) {
                    0 if c.n == 1 => Entry::Single,
                    1 => Entry::Multi,
                    _ => Entry::WithLimits,
                };
                c.mode = *r.pick(MODES);
                season(r, &mut c);
                record_call(out, r, &c);
            }
        }
    }
}

fn at_odds(out: &mut Out, r: &mut Rng) {
    const OTHERS: &[u16] = &[1, 2, 4, 8, 16, 32, 64, 128, 512];
    for set in 0..1_usize << OTHERS.len() {
        let f: u16 = (0..OTHERS.len()).filter(|i| set >> i & 1 == 1).map(|i| OTHERS[i]).sum();
        let k = ["aB", "x|y", "()", "(*UTF8)ab", "(*UCP)(", "\u{e9}", ")"][(set + r.below(7)) % 7];
        let pats = if r.one_in(3) { vec![k.to_string()] } else { vec!["Q".to_string(), k.to_string()] };
        let n = pats.len();
        let mut c = Call::of(pats, [f & 8, f | 0x500][2 - n..].to_vec(), vec![4; n]);
        c.mode = *r.pick(MODES);
        record_call(out, r, &c);
    }
}

fn ladder_huge(out: &mut Out, r: &mut Rng) {
    const N: usize = 65_800;
    let mut c = Call::repeated("a|b", 0, 0, N);
    c.entry = Entry::Multi;
    c.pats = vec!["x".to_string(); N];
    c.flags = vec![0; N];
    c.ids = (0..N as u32).map(|i| i % 40).collect();
    c.ids[N - 7] = 9_999;
    c.ids[N - 1] = 9_999;
    c.flags[N - 1] = 8;
    record_call(out, r, &c);
    c.flags[N - 1] = 0;
    c.pats[N - 2] = "x)".to_string();
    record_call(out, r, &c);
    // Of several kinds, and no fault; then single-match ones.
    c.pats = (0..N).map(|i| ["x", "a|b", "()", "(*UTF8)x", "y"][i % 5].to_string()).collect();
    c.mode = *r.pick(MODES);
    record_call(out, r, &c);
    c.whole = true;
    c.flags = vec![8 + r.below(2) as u16; N];
    c.pats[N - 3] = "m|n".to_string();
    c.ids[N - 3] = 77;
    c.ids[N - 2] = 77;
    c.flags[N - 2] = 0x40;
    record_call(out, r, &c);
}

/// As many match ids, reports and keys, and a conflict with a late one.
fn ladder_whole(out: &mut Out, r: &mut Rng, which: std::ops::Range<usize>) {
    const N: usize = 65_800;
    for k in which {
        let mut c = Call::repeated("x", 0, 0, N);
        c.entry = Entry::Multi;
        c.whole = true;
        let wide = r.one_in(2);
        let plain: Vec<u16> = vec![[0, 1, 0x80][r.below(3)]; 1];
        c.pats = match k % 3 {
            0 => vec!["x".to_string()],
            1 => vec!["a|b".to_string()],
            _ => (0..N).map(|i| ["x", "a|b", "xyz", "(*UTF8)y"][r.below(if i + 100 < N { 2 } else { 4 })].to_string()).collect(),
        };
        c.ids = (0..N).map(|i| spread(i, wide)).collect();
        let late = N - 12 + r.below(10);
        c.ids[N - 1] = c.ids[late];
        c.flags = vec![plain[0] | if k < 6 { 8 } else { 0 }; N];
        if k >= 3 {
            for f in &mut c.flags[N - 1_000..] {
                *f ^= [0, 0x400, 1][r.below(3)];
            }
        }
        if k % 2 == 1 {
            c.flags[N - 1] ^= 8;
        }
        if k == 9 {
            c.flags[N - 1] ^= 8;
            let last = c.pats.len() - 1;
            c.pats[last] = ["(", "z)", "(*CR)a"][r.below(3)].to_string();
        }
        c.mode = *r.pick(MODES);
        record_call(out, r, &c);
    }
}

/// Patterns as deep and as long as the limit allows, in a thread with the
/// stack a thread usually has.
pub fn run_deep(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let seed = a.seed;
    let done = std::thread::Builder::new()
        .stack_size(if a.key == 0 { 2 << 20 } else { a.key << 10 })
        .spawn(move || {
            let mut r = Rng::new(seed);
            let n = 16_000;
            let half = n / 2;
            let pats = vec![
                "(".repeat(half) + &")".repeat(half),
                "(".repeat(half - 1) + "a" + &")".repeat(half - 1),
                "(".repeat(n),
                ")".repeat(n),
                "(".repeat(half) + &")".repeat(half - 1) + "a",
                "(|".repeat(n / 3) + &")".repeat(n / 3),
                "(a|".repeat(n / 4) + &")".repeat(n / 4),
                "|".repeat(n),
                "()".repeat(half),
                "(a)".repeat(n / 3),
                "a(".repeat(half),
                "(*".repeat(half),
                "(*".to_string() + &"U".repeat(n - 3) + ")",
                "(*LIMIT_MATCH=".to_string() + &"9".repeat(n - 15) + ")",
                "(*UCP)".to_string() + &"(".repeat(half - 3) + &")".repeat(half - 3),
                "\u{10ffff}".repeat(n / 4),
                "\0".repeat(n),
            ];
            for p in pats {
                for fl in [0_u16, 1, 8, 0x80] {
                    let mut c = Call::of(vec![p.clone()], vec![fl], vec![7]);
                    c.entry = Entry::Multi;
                    c.bulk = true;
                    c.mode = *r.pick(MODES);
                    record_call(&mut out, &mut r, &c);
                }
            }
            out.finish();
        })
        .expect("thread")
        .join();
    if done.is_err() {
        std::process::exit(70);
    }
}
