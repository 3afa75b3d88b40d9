//! The same compiles in a fresh process each, in one process in many orders,
//! in several threads at once, and in threads that take turns pattern by
//! pattern.

use super::engine::{buffer, MODES};
use super::session::{compile_call, from_case, random_call, run_call, Call, Entry};
use crate::util::{guard, Out, Rng};
use crate::{cases, gen, json::J, obj, Args};
use crate::hooks::{database_info, scans, take_steps, watch, Limits, Snapshot};
use rescan::{CompileError, Database};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Barrier, Mutex};
use std::thread;

const FAMILIES: usize = 10;
/// Number of members of a family.
const MEMBERS: usize = 10;

fn set(pats: Vec<String>, flags: Vec<u16>, ids: Vec<u32>) -> Call {
    let mut c = Call::of(pats, flags, ids);
    c.entry = Entry::Multi;
    c
}

fn family(k: usize) -> usize {
    k / MEMBERS % FAMILIES
}

/// The k-th call of a seed. Those of a family are related, so that what one
/// leaves behind would matter to another.
fn call(seed: u64, k: usize) -> Call {
    let mut r = Rng::new(seed.wrapping_mul(1000) + k as u64 + 7);
    let r = &mut r;
    let f = family(k);
    // Shared by the family.
    let mut fam = Rng::new(seed.wrapping_mul(977) + (k / MEMBERS) as u64);
    let base = 1 + fam.below(12);
    let mut c = match f {
        // Failures after some patterns that do not fail, and sets that do
        // not but are like them.
        1 => {
            let n = 1 + r.below(4);
            let mut pats: Vec<String> = (0..n).map(|_| {
                let n = 1 + r.below(9);
                gen::run(r, n)
            }).collect();
            if r.one_in(3) {
                pats = pats.iter().map(|p| format!("({})", p)).collect();
            }
            let n = pats.len();
            let mut flags: Vec<u16> = (0..n).map(|_| (r.below(2) * 8) as u16).collect();
            let mut ids = vec![0; n];
            match r.below(8) {
                // One match id, maybe in conflict.
                0..=3 => {
                    if r.one_in(2) {
                        flags = vec![8; n];
                        flags.push(0);
                        ids.push(0);
                        pats.push("z".to_string());
                    }
                }
                4 | 5 => {
                    ids = (0..n as u32).collect();
                    pats.push(["(", "a)", "\u{e9}", "(*CR)a", "(*x)"][r.below(5)].to_string());
                    flags.push(0);
                    ids.push(9);
                }
                _ => ids = (0..n as u32).collect(),
            }
            set(pats, flags, ids)
        }
        // Small buffers.
        2 => {
            let n = 1 + r.below(4);
            let pats = (0..n).map(|_| {
                if r.one_in(4) {
                    return "a|b".to_string();
                }
                let n = base + r.below(4);
                gen::run(r, n)
            }).collect();
            let mut c = set(pats, (0..n).map(|_| r.below(2) as u16).collect(), vec![3; n]);
            c.entry = Entry::WithLimits;
            c.lim.small_write_largest_buffer = base + r.below(4);
            c
        }
        // Few reports.
        3 => {
            let n = 1 + r.below(6);
            let mut c = set(
                (0..n).map(|_| gen::run(r, 2)).collect(),
                (0..n).map(|_| (r.below(2) * 0x400) as u16).collect(),
                (0..n).map(|_| r.below(3) as u32).collect(),
            );
            c.entry = Entry::WithLimits;
            c.lim.limit_report_count = r.below(4);
            c
        }
        // The same literals with other flags.
        4 => {
            let n = 1 + r.below(3);
            let pat = ["abc", "Ab", "a", "K"][fam.below(4)].to_string();
            let flags = (0..n).map(|_| {
                if r.one_in(2) { [0, 1, 0x400, 2, 4, 16, 64][r.below(7)] } else { gen::flags(r) & !0x508 }
            }).collect();
            let ids = (0..n).map(|_| r.below(2) as u32).collect();
            set(vec![pat; n], flags, ids)
        }
        // The same automaton with other flags.
        5 => {
            let n = 1 + r.below(3);
            let pat = ["(((a)))", "a|b", "(a)(b)c", "a(b|c)d", "()"][fam.below(5)].to_string();
            let h = (r.below(2) * 8) as u16;
            let flags = (0..n).map(|_| (gen::flags(r) & !0x508) | h).collect();
            set(vec![pat; n], flags, vec![r.below(2) as u32; n])
        }
        // The same verb with other flags and remainders.
        6 => {
            let n = 1 + r.below(3);
            let v = ["(*UCP)", "(*UTF8)", "(*UTF)", "(*UTF8)(*UCP)"][fam.below(4)];
            let rest = ["ab", "a|b", "", "((a)", "(b)"];
            let pats = (0..n).map(|_| format!("{}{}", v, rest[if r.one_in(2) { 0 } else { r.below(5) }])).collect();
            let flags = (0..n).map(|_| [0, 1, 32, 64, 96, 0x400][r.below(6)]).collect();
            set(pats, flags, vec![5; n])
        }
        // As many patterns as a limit allows, and one more or less.
        7 => {
            let n = base.max(2) + r.below(3) - 1;
            let mut c = set(
                (0..n).map(|_| gen::run(r, 3)).collect(),
                (0..n).map(|_| r.below(2) as u16).collect(),
                (0..n).map(|_| r.below(3) as u32).collect(),
            );
            c.entry = Entry::WithLimits;
            match r.below(4) {
                0 => c.lim.small_write_max_patterns = base,
                1 => c.lim.small_write_max_literals = base,
                2 => c.lim.limit_pattern_count = base,
                _ => c.lim.limit_pattern_length = 1 + r.below(4),
            }
            c
        }
        // Long patterns with and without case.
        8 => {
            let n = 1 + r.below(3);
            let pats = (0..n).map(|_| {
                let len = [60, 63, 64, 65, 70, 71, 100, 128, 129, 200, 300][r.below(11)];
                let s = gen::run(r, len);
                if r.one_in(3) { format!("({}){}", &s[..len / 2], &s[len / 2..]) } else { s }
            }).collect();
            set(pats, (0..n).map(|_| r.below(2) as u16).collect(), vec![1; n])
        }
        _ => random_call(r),
    };
    if f != 0 && f != 9 {
        c.mode = MODES[r.below(MODES.len())];
    }
    if cfg!(vp_public) {
        c.lim = Limits::default();
    }
    c
}

fn digest(s: &str) -> String {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0100_0000_01b3);
    }
    format!("{:016x}", h)
}

/// Describes an outcome and the states on the way to it in full.
fn told(got: &Result<Result<Database, CompileError>, String>, steps: &str) -> String {
    match got {
        Err(m) => format!("panic {} {}", digest(steps), m),
        Ok(Err(e)) => format!("error {} {}", digest(&format!("{:?} {}", e, steps)), e),
        Ok(Ok(db)) => {
            let info = database_info(db);
            format!("database {} {} {}", digest(steps), info.0, info.1)
        }
    }
}

/// Runs a compile.
fn outcome(c: &Call) -> (String, Option<Database>) {
    let (got, steps) = match run_call(c) {
        Err(m) => (Err(m), take_steps()),
        Ok((r, steps)) => (Ok(r), steps),
    };
    let sig = told(&got, &format!("{:?}", steps));
    (sig, got.ok().and_then(Result::ok))
}

/// Runs a compile unobserved.
fn plain_outcome(c: &Call) -> (String, Option<Database>) {
    let got = guard(|| compile_call(c));
    let sig = told(&got, "");
    (sig, got.ok().and_then(Result::ok))
}

/// How many patterns of a call are also parsed alone.
const PARSED: usize = 3;

fn parse_key(k: usize, i: usize) -> String {
    format!("parse {} of {}", i, k)
}

/// What the i-th pattern of a call is parsed to.
#[cfg(not(vp_public))]
fn parse_outcome(c: &Call, i: usize) -> String {
    let flags = c.flags.get(i).copied().unwrap_or(0);
    let mut j = super::parse::outcome(i, &c.pats[i], flags, 77).text();
    let d = digest(&j);
    let mut n = j.len().min(100);
    while !j.is_char_boundary(n) {
        n -= 1;
    }
    j.truncate(n);
    format!("{} {}", d, j)
}

/// Patterns parsed alone, one after another.
#[cfg(not(vp_public))]
fn parses(a: &Args, calls: &[Call], out: &mut Out) {
    let mut r = Rng::new(a.seed);
    let mut k = 0;
    for _ in 0..a.n {
        k = match r.below(8) {
            0 => k,
            1..=5 => relative(&mut r, k, calls.len()),
            _ => r.below(calls.len()),
        };
        let i = r.below(PARSED);
        if i < calls[k].pats.len() {
            out.event(obj! { e: "many", key: parse_key(k, i), sigs: vec![parse_outcome(&calls[k], i)] });
        }
    }
}

/// Compiles one call in this fresh process.
pub fn reference(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    out.about_to(&"isolation".into());
    let c = match &a.cases {
        None => call(a.seed, a.key),
        Some(path) => calls_of(path).swap_remove(a.key),
    };
    if a.cases.is_some() {
        // Step by step.
        let mut w = Worker::new(Arc::new(vec![c]));
        w.command(Turn::Begin(0));
        out.event(obj! { e: "begin", t: 0, key: a.key.to_string() });
        loop {
            let j = w.command(Turn::Step);
            let last = matches!(&j, J::O(v) if v[0].1.text() == "\"end\"");
            out.event(with_thread(j, 0));
            if last {
                break;
            }
        }
    } else {
        out.event(obj! { e: "fresh", key: a.key.to_string(), sig: outcome(&c).0 });
        out.event(obj! { e: "fresh", key: format!("plain {}", a.key), sig: plain_outcome(&c).0 });
        #[cfg(not(vp_public))]
        for i in 0..PARSED.min(c.pats.len()) {
            out.event(obj! { e: "fresh", key: parse_key(a.key, i), sig: parse_outcome(&c, i) });
        }
    }
    out.finish();
}

/// --key is the number of distinct calls.
pub fn run(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    out.about_to(&"isolation".into());
    if let Some(path) = &a.cases {
        run_schedules(path, &mut out);
        out.finish();
        return;
    }
    let calls: Arc<Vec<Call>> = Arc::new((0..a.key).map(|k| call(a.seed, k)).collect());
    // The first compiles of this process are of one kind; so are those of
    // some threads later.
    monoculture(a.seed, a.seed as usize % KINDS, &calls, &mut out);
    histories(a, &calls, &mut out);
    for kind in 0..KINDS {
        let died = thread::scope(|s| s.spawn(|| monoculture(a.seed, kind, &calls, &mut out)).join().is_err());
        if died {
            out.event(obj! { e: "end", t: 99, sig: "a thread died" });
        }
    }
    threads(a, &calls, &mut out);
    #[cfg(not(vp_public))]
    parses(a, &calls, &mut out);
    many(a, &calls, &mut out);
    huge(a, &calls, &mut out);
    out.finish();
}

const KINDS: usize = 12;

/// Whether a call is of a kind.
fn is_of(c: &Call, kind: usize) -> bool {
    let pats = |f: &dyn Fn(&str) -> bool| c.n > 0 && c.pats.iter().all(|p| f(p));
    let flags = |f: &dyn Fn(u16) -> bool| c.n > 0 && c.flags.iter().all(|x| f(*x));
    match kind {
        0 => pats(&|p| !p.starts_with("(*")),
        1 => pats(&|p| p.starts_with("(*")),
        2 => pats(&|p| !p.contains('|')),
        3 => pats(&|p| !p.contains('(')),
        4 => pats(&|p| p.contains('|')),
        5 => flags(&|f| f & 1 == 0),
        6 => flags(&|f| f & 1 == 1),
        7 => flags(&|f| f & 8 == 0),
        8 => flags(&|f| f & 8 == 8),
        9 => c.n == 1,
        10 => c.n > 2,
        _ => c.mode == "block",
    }
}

/// Very many compiles of one kind (one call, some, or all there are), then
/// others.
fn monoculture(seed: u64, kind: usize, calls: &[Call], out: &mut Out) {
    let mut r = Rng::new(seed * 41 + kind as u64);
    let mut of: Vec<usize> = (0..calls.len()).filter(|k| is_of(&calls[*k], kind)).collect();
    of.retain(|k| calls[*k].n < 12 && calls[*k].pats.iter().all(|p| p.len() < 400));
    if r.one_in(3) && !of.is_empty() {
        let k = r.below(of.len());
        of = of[k..].iter().copied().take(1 + k % 3).collect();
    }
    // All succeed, or all fail.
    let want = r.below(3);
    of.retain(|k| want == 0 || plain_outcome(&calls[*k]).0.starts_with("database") == (want == 1));
    if of.is_empty() {
        return;
    }
    for _ in 0..7_000 {
        let _ = plain_outcome(&calls[of[r.below(of.len())]]);
    }
    for _ in 0..100 {
        let k = r.below(calls.len());
        out.event(obj! { e: "begin", t: 0, key: k.to_string() });
        let (sig, _) = outcome(&calls[k]);
        out.event(obj! { e: "end", t: 0, sig: sig });
    }
}

fn relative(r: &mut Rng, k: usize, n: usize) -> usize {
    let first = k / MEMBERS * MEMBERS;
    first + r.below(MEMBERS.min(n - first))
}

/// One after another, in this thread.
fn histories(a: &Args, calls: &[Call], out: &mut Out) {
    let mut r = Rng::new(a.seed);
    let mut k = 0;
    for _ in 0..a.n {
        k = match r.below(8) {
            0 => k,
            1..=4 => relative(&mut r, k, calls.len()),
            _ => r.below(calls.len()),
        };
        out.event(obj! { e: "begin", t: 0, key: k.to_string() });
        let (sig, db) = outcome(&calls[k]);
        out.event(obj! { e: "end", t: 0, sig: sig });
        if let Some(db) = db {
            if r.one_in(4) {
                let _ = scans(&db, &buffer(&mut r));
            }
        }
    }
}

/// At once, with one shared database being scanned.
fn threads(a: &Args, calls: &Arc<Vec<Call>>, out: &mut Out) {
    const THREADS: usize = 8;
    let shared = outcome(&Call::of(vec!["shared".to_string()], vec![0], vec![0])).1.map(Arc::new);
    let log = Arc::new(Mutex::new(Vec::new()));
    let ticket = Arc::new(AtomicUsize::new(0));
    let gate = Arc::new(Barrier::new(THREADS));
    let handles: Vec<_> = (1..=THREADS)
        .map(|t| {
            let (calls, log, gate, shared, ticket) =
                (calls.clone(), log.clone(), gate.clone(), shared.clone(), ticket.clone());
            let (seed, n) = (a.seed, a.n / 4);
            thread::spawn(move || {
                let mut r = Rng::new(seed * 31 + t as u64);
                let mut common = Rng::new(seed * 37);
                let mut mine = Vec::new();
                let now = || ticket.fetch_add(1, Ordering::SeqCst);
                for round in 0..n {
                    let k = common.below(calls.len());
                    if round % 2 == 0 {
                        gate.wait();
                    }
                    let k = if r.one_in(8) { r.below(calls.len()) } else { relative(&mut r, k, calls.len()) };
                    mine.push((now(), obj! { e: "begin", t: t, key: k.to_string() }));
                    let (sig, _) = outcome(&calls[k]);
                    mine.push((now(), obj! { e: "end", t: t, sig: sig }));
                    if let Some(db) = &shared {
                        if r.one_in(8) {
                            let before = database_info(db);
                            let ok = scans(db, &buffer(&mut r));
                            let same = ok && before == database_info(db);
                            mine.push((now(), obj! { e: "scan", t: t, ok: same }));
                        }
                    }
                }
                log.lock().unwrap_or_else(|p| p.into_inner()).append(&mut mine);
            })
        })
        .collect();
    let mut died = false;
    for h in handles {
        died |= h.join().is_err();
    }
    let mut events = std::mem::take(&mut *log.lock().unwrap_or_else(|p| p.into_inner()));
    events.sort_by_key(|e| e.0);
    for (_, j) in events {
        out.event(j);
    }
    if died {
        out.event(obj! { e: "end", t: 99, sig: "a thread died" });
    }
}

/// More compiles in one process than a narrow counter holds, of which only
/// the outcomes are told apart.
fn many(a: &Args, calls: &[Call], out: &mut Out) {
    let mut r = Rng::new(a.seed);
    let rounds = if a.n < 3000 { 2_000 } else { 9_000 };
    for _ in 0..8 {
        let k = loop {
            let k = r.below(calls.len());
            if calls[k].pats.iter().all(|p| p.len() < 10) && calls[k].n < 5 {
                break k;
            }
        };
        let mut sigs: Vec<String> = Vec::new();
        for _ in 0..rounds {
            let sig = plain_outcome(&calls[k]).0;
            if !sigs.contains(&sig) {
                sigs.push(sig);
            }
        }
        out.event(obj! { e: "many", key: format!("plain {}", k), sigs: sigs });
    }
    for _ in 0..200 {
        let k = r.below(calls.len());
        out.event(obj! { e: "begin", t: 0, key: k.to_string() });
        let (sig, _) = outcome(&calls[k]);
        out.event(obj! { e: "end", t: 0, sig: sig });
    }
}

/// Small compiles after large ones.
fn huge(a: &Args, calls: &[Call], out: &mut Out) {
    let mut r = Rng::new(a.seed);
    for &n in &[300, 1_030, 5_001, 12_000, 70_000] {
        let pats: Vec<String> = (0..n).map(|i| if r.one_in(9) { format!("(p{})", i) } else { format!("q{}", i) }).collect();
        let flags = (0..n).map(|_| r.below(2) as u16).collect();
        let ids = (0..n as u32).collect();
        let mut c = set(pats, flags, ids);
        match r.below(3) {
            0 => {}
            // Much of one thing.
            1 => c.ids = vec![1; n],
            _ => c.pats.push("(".to_string()),
        }
        if c.pats.len() > n {
            c.n += 1;
            c.nf += 1;
            c.flags.push(0);
            c.ids.push(0);
        }
        let _ = plain_outcome(&c);
        let longest = "(a|".repeat(n / 25) + &"z".repeat(n / 10 + 1) + &")".repeat(n / 25);
        let _ = plain_outcome(&set(vec![longest], vec![0], vec![0]));
        for _ in 0..60 {
            let k = r.below(calls.len());
            out.event(obj! { e: "begin", t: 0, key: k.to_string() });
            let (sig, _) = outcome(&calls[k]);
            out.event(obj! { e: "end", t: 0, sig: sig });
        }
    }
}

// Schedules from the specification.

enum Turn {
    Begin(usize),
    Step,
}

/// A thread that compiles one pattern at a time, when told to.
struct Worker {
    to: Sender<Turn>,
    from: Receiver<J>,
}

fn step_event(s: &Snapshot) -> J {
    obj! { e: "step", sig: digest(&format!("{:?}", s)) }
}

impl Worker {
    fn new(calls: Arc<Vec<Call>>) -> Worker {
        let (to, turns) = channel::<Turn>();
        let (say, from) = channel::<J>();
        thread::spawn(move || {
            let turns = Arc::new(Mutex::new(turns));
            let next = {
                let turns = turns.clone();
                move || turns.lock().unwrap_or_else(|p| p.into_inner()).recv()
            };
            let mut pending = None;
            while let Ok(turn) = next() {
                match (turn, pending.take()) {
                    (Turn::Begin(k), _) => {
                        pending = Some(k);
                        let _ = say.send(obj! { e: "begin", key: k.to_string() });
                    }
                    (Turn::Step, None) => {
                        let _ = say.send(obj! { e: "idle" });
                    }
                    (Turn::Step, Some(k)) => {
                        let (tell, again) = (say.clone(), next.clone());
                        watch(Some(Box::new(move |s, last| {
                            if !last {
                                let _ = tell.send(step_event(&s));
                                // Whatever the turn, it is to go on.
                                let _ = again();
                            }
                        })));
                        let got = guard(|| compile_call(&calls[k]));
                        watch(None);
                        let _ = say.send(obj! { e: "end", sig: told(&got, "") });
                    }
                }
            }
        });
        Worker { to, from }
    }
    fn command(&mut self, t: Turn) -> J {
        let _ = self.to.send(t);
        self.from.recv().unwrap_or_else(|_| obj! { e: "end", sig: "a thread died" })
    }
}

fn with_thread(j: J, t: usize) -> J {
    match j {
        J::O(mut v) => {
            v.push(("t", J::from(t)));
            J::O(v)
        }
        j => j,
    }
}

fn calls_of(path: &str) -> Vec<Call> {
    cases::lines(path).iter().filter(|l| l[0] == "call").map(|l| from_case(&l[1..])).collect()
}

/// Replays schedules: lines of thread:call to begin and thread to go on.
fn run_schedules(path: &str, out: &mut Out) {
    let calls = Arc::new(calls_of(path));
    let mut workers: Vec<Worker> = (0..4).map(|_| Worker::new(calls.clone())).collect();
    for l in cases::lines(path) {
        if l[0] != "schedule" {
            continue;
        }
        out.about_to(&J::A(l.iter().map(|s| J::from(s.clone())).collect()));
        out.event(obj! { e: "new" });
        for turn in &l[1..] {
            let mut parts = turn.split(':');
            let t: usize = parts.next().and_then(|t| t.parse().ok()).expect("thread");
            let turn = parts.next().map_or(Turn::Step, |k| Turn::Begin(k.parse().expect("call")));
            let j = workers[t].command(turn);
            out.event(with_thread(j, t));
        }
    }
}
