//! A small-buffer builder driven directly.

use super::snap;
use crate::json::J;
use crate::util::{guard, Out, Rng};
use crate::{arr, obj, Args};
use crate::hooks::{Limits, Lit, SmallWrite, SmallWriteSnapshot};

pub fn lit(v: &[(u8, bool)]) -> Lit {
    let mut l = Lit::default();
    for (c, n) in v {
        l.push(*c, *n);
    }
    l
}

pub fn items(v: &[(u8, bool)]) -> J {
    J::A(v.iter().map(|(c, n)| arr![*c, *n]).collect())
}

fn snapshot(s: &SmallWriteSnapshot) -> J {
    obj! { has: true, sw: snap::small_write(s) }
}

/// A literal whose letters are all caseless or all not, over few characters.
pub fn uniform(r: &mut Rng, n: usize) -> Vec<(u8, bool)> {
    let nc = r.one_in(2);
    (0..n)
        .map(|_| {
            let c = match r.below(8) {
                0 => r.byte(),
                1 => *r.pick(b"\x00\xff\x80@[`{0"),
                _ => *r.pick(b"aAb"),
            };
            (c, nc && c.is_ascii_alphabetic())
        })
        .collect()
}

struct Run<'a> {
    out: &'a mut Out,
    moves: Vec<J>,
    sw: SmallWrite,
}

impl<'a> Run<'a> {
    fn new(out: &'a mut Out, n: usize, lim: &Limits) -> Self {
        let sw = SmallWrite::new(n, lim);
        out.event(obj! { e: "new", lim: snap::limits(lim), n: n, snap: snapshot(&sw.snapshot()) });
        Run { out, moves: vec![snap::limits(lim)], sw }
    }
    fn add(&mut self, l: &[(u8, bool)], report: u32, look: bool) -> bool {
        if self.moves.len() < 200 {
            self.moves.push(arr![items(l), report]);
        }
        self.out.about_to(&J::A(self.moves.clone()));
        let sw = &mut self.sw;
        match guard(|| sw.add_literal(&lit(l), report)) {
            Ok(()) => {
                let s = if look { snapshot(&self.sw.snapshot()) } else { snap::nothing() };
                self.out.event(obj! { e: "add", lit: items(l), r: report, snap: s });
                true
            }
            Err(m) => {
                self.out.event(obj! { e: "panic", msg: m });
                false
            }
        }
    }
}

/// Fills a table to the last vertex and beyond.
fn full_table(out: &mut Out, r: &mut Rng) {
    let nc = r.one_in(2);
    let lim = Limits::default();
    let mut run = Run::new(out, 200, &lim);
    // Literals of 70 characters with distinct beginnings: 114 of them make
    // 7981 vertices with the root.
    let mut used = Vec::new();
    for i in 0..114_u8 {
        let first = i + 1 + if nc { 0 } else { r.below(2) as u8 * 0 };
        used.push(first);
        let l: Vec<(u8, bool)> = (0..70)
            .map(|k| {
                let c = if k == 0 { first } else { b'Q' };
                (c, nc && c.is_ascii_alphabetic())
            })
            .collect();
        // The first characters of caseless literals must stay distinct.
        let l: Vec<(u8, bool)> = l
            .into_iter()
            .enumerate()
            .map(|(k, (c, n))| if k == 0 { (c | 0x80, false) } else { (c, n) })
            .collect();
        if !run.add(&l, u32::from(i), i > 112) {
            return;
        }
    }
    // 19 more to the limit; the next one goes over it.
    for (n, rep) in [(19, 1), (19, 2), (10, 3)] {
        let l: Vec<(u8, bool)> = (0..n).map(|k| (b'A' + k as u8, nc)).collect();
        if !run.add(&l, rep, true) {
            return;
        }
    }
    let over: Vec<(u8, bool)> = (0..20).map(|k| (b'A' + k as u8, nc)).collect();
    run.add(&over, 4, true);
    run.add(&[(b'z', false)], 5, true);
}

/// Many literals, many reports of one, long ones.
fn ladder(out: &mut Out, r: &mut Rng) {
    for n in [20, 64, 65, 100, 127, 129, 200, 255, 256, 257, 300, 500, 513, 1_000, 1_025, 1_500] {
        for kind in 0..5 {
            let mut lim = Limits::default();
            lim.small_write_largest_buffer = [70, 5_000, n][r.below(3)];
            match r.below(4) {
                // About as many as there may be.
                0 => lim.small_write_max_literals = n + 1 - r.below(4),
                1 => lim.small_write_max_literals = n + 50,
                _ => {}
            }
            let patterns = if r.one_in(3) { lim.small_write_max_patterns = n; n + r.below(2) } else { n.min(9_000) };
            let mut run = Run::new(out, patterns, &lim);
            if patterns > n {
                continue;
            }
            let nc = r.one_in(2);
            let base = 1 + r.below(40);
            for i in 0..n {
                let (l, rep): (Vec<(u8, bool)>, u32) = match kind {
                    // One literal.
                    0 => (vec![(b'k', nc)], (i as u32).wrapping_mul(0x9e37_79b1)),
                    // One node with many others below it.
                    1 => (vec![(b'k', nc), ((i % 256) as u8, false), ((i / 256) as u8, false)], i as u32 / 2),
                    // Many words.
                    2 => {
                        let len = base + r.below(3);
                        let l = (0..len).map(|k| (b'A' + (i / [1, 7, 49, 343][k % 4] % 7) as u8, nc)).collect();
                        (l, r.below(n) as u32)
                    }
                    // Both tables.
                    3 => (vec![(b'a' + (i % 23) as u8, i % 2 == 0), (b'B' + (i / 23 % 23) as u8, i % 2 == 0)], i as u32),
                    // Few long ones.
                    _ => {
                        if i == 6 {
                            break;
                        }
                        let cut = r.below(n);
                        let last = if r.one_in(2) { b'Y' } else { b'Z' };
                        ((0..n + r.below(3)).map(|k| (if k < cut { b'X' } else { last }, nc)).collect(), i as u32)
                    }
                };
                let look = i + 1 == n || kind == 4 || i == n / 2;
                if !run.add(&l, rep, look) {
                    return;
                }
            }
            run.add(&[(b'k', nc)], 1, true);
        }
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let mut r = Rng::new(a.seed);
    if a.key == 0 {
        full_table(&mut out, &mut r);
    }
    if a.key == 1 {
        ladder(&mut out, &mut r);
    }
    for _ in 0..a.n {
        let mut lim = Limits::default();
        let n = r.below(20);
        if r.one_in(2) {
            lim.small_write_largest_buffer = r.below(7);
        }
        if r.one_in(3) {
            lim.small_write_max_literals = r.below(9);
        }
        if r.one_in(5) {
            lim.small_write_max_patterns = (n + 1).saturating_sub(r.below(3));
        }
        if r.one_in(12) {
            lim.allow_small_write = false;
        }
        let mut run = Run::new(&mut out, n, &lim);
        let mut last = Vec::new();
        for _ in 0..(2 + r.below(14)) {
            let len = 1 + r.below(5);
            let mut l = match r.below(6) {
                0 | 1 if !last.is_empty() => {
                    // A relative of the one before.
                    let mut l: Vec<(u8, bool)> = last.clone();
                    match r.below(3) {
                        0 if l.len() > 1 => {
                            l.pop();
                        }
                        1 => l.push(l[0]),
                        _ => {}
                    }
                    l
                }
                2 => {
                    // Both kinds of letters.
                    let mut l = uniform(&mut r, len);
                    let i = r.below(l.len());
                    l[i] = (b'b', r.one_in(2));
                    l
                }
                _ => uniform(&mut r, len),
            };
            if r.one_in(20) {
                l = uniform(&mut r, 68 + len);
            }
            let rep = r.below(6) as u32;
            if !run.add(&l, rep, true) {
                break;
            }
            last = l;
        }
    }
    out.finish();
}
