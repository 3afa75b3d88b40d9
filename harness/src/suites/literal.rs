//! Literals built by pushes and compared pairwise.

use crate::json::J;
use crate::util::{guard, Out, Rng};
use crate::{arr, gen, obj, Args};
use crate::hooks::Lit;
use std::cmp::Ordering;

fn items(v: &[(u8, bool)]) -> J {
    J::A(v.iter().map(|(c, n)| arr![*c, *n]).collect())
}

fn number(o: Ordering) -> i64 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

fn make(pushes: &[(u8, bool)]) -> Lit {
    let mut l = Lit::default();
    for (c, n) in pushes {
        l.push(*c, *n);
    }
    l
}

fn build(out: &mut Out, r: &mut Rng, pushes: &[(u8, bool)]) -> Option<Lit> {
    let n = pushes.len();
    let mut parts: Vec<(usize, usize)> = Vec::new();
    if n <= 5 {
        (0..=n).for_each(|x| (x..=n).for_each(|y| parts.push((x, y))));
    } else {
        parts.extend(&[(0, n), (1, n), (0, n - 1), (n / 2, n / 2 + 1)]);
        for _ in 0..if n > 2_000 { 2 } else { 6 } {
            let (x, y) = (r.below(n + 1), r.below(n + 1));
            parts.push((x.min(y), x.max(y)));
        }
    }
    out.about_to(&items(pushes));
    let got = guard(|| {
        let l = make(pushes);
        let j = obj! {
            e: "build",
            pushes: items(pushes),
            items: items(&l.items()),
            items2: items(&l.items_by_into_iter()),
            len: l.len(),
            empty: l.is_empty(),
            anync: l.any_nocase(),
            mixed: l.mixed(),
            parts: J::A(parts.iter().map(|p| arr![p.0, p.1, l.mixed_part(p.0, p.1)]).collect()),
        };
        (l, j)
    });
    match got {
        Ok((l, j)) => {
            out.event(j);
            Some(l)
        }
        Err(m) => {
            out.event(obj! { e: "panic", msg: m });
            None
        }
    }
}

fn compare(out: &mut Out, pool: &[Lit]) {
    let n = pool.len();
    let got = guard(|| {
        let row = |i: usize, f: &dyn Fn(&Lit, &Lit) -> J| J::A((0..n).map(|j| f(&pool[i], &pool[j])).collect());
        let all = |f: &dyn Fn(&Lit, &Lit) -> J| J::A((0..n).map(|i| row(i, f)).collect());
        obj! {
            e: "compare",
            eq: all(&|a, b| J::from(a.compare(b).0)),
            ne: all(&|a, b| J::from(a.compare(b).1)),
            cmp: all(&|a, b| J::I(number(a.compare(b).2))),
            pcmp: all(&|a, b| J::I(a.compare(b).3.map_or(9, number))),
        }
    });
    match got {
        Ok(j) => out.event(j),
        Err(m) => out.event(obj! { e: "panic", msg: m }),
    }
}

fn element(r: &mut Rng) -> (u8, bool) {
    let c = match r.below(4) {
        0 => r.byte(),
        1 => *r.pick(b"@[`{\x00\x7f\x80\xdf\xe0\xff9 "),
        _ => *r.pick(b"aAbBzZ"),
    };
    (c, r.one_in(2))
}

/// Literals of many lengths: with all, some, the first, the last or none of
/// the characters caseless, and their relatives.
fn ladder(out: &mut Out, r: &mut Rng) {
    let mut sizes = gen::SIZES.to_vec();
    sizes.extend(&[16_383, 16_385, 32_769, 65_535, 65_537]);
    for n in sizes {
        let mut pool = Vec::new();
        for kind in 0..if n > 9_000 { 3 } else { 7 } {
            let mut p: Vec<(u8, bool)> = (0..n)
                .map(|i| {
                    let (c, _) = element(r);
                    let nc = match (kind + n) % 7 {
                        0 => false,
                        1 => true,
                        2 => i == 0,
                        3 => i + 1 == n,
                        4 => i == n / 2,
                        5 => i + 1 != n,
                        _ => r.one_in(2),
                    };
                    (c, nc)
                })
                .collect();
            if r.one_in(4) {
                p = p.iter().map(|x| (x.0 & 0x8f | 0x30, x.1)).collect();
            }
            match build(out, r, &p) {
                Some(l) => pool.push(l),
                None => return,
            }
            if n < 1_100 || kind == 0 {
                // One that differs in one place.
                let i = [0, n - 1, n / 2, r.below(n)][r.below(4)];
                match r.below(4) {
                    0 => p[i].1 = !p[i].1,
                    1 => p[i].0 = p[i].0.wrapping_add(1),
                    2 => p.truncate(i),
                    _ => p.push((b'q', false)),
                }
                match build(out, r, &p) {
                    Some(l) => pool.push(l),
                    None => return,
                }
            }
        }
        out.about_to(&J::from("comparing the literals built last"));
        compare(out, &pool);
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let mut r = Rng::new(a.seed);
    // Every single character, both ways.
    if a.key == 0 {
        for c in 0..=255_u8 {
            build(&mut out, &mut r, &[(c, false)]);
            build(&mut out, &mut r, &[(c, true)]);
            build(&mut out, &mut r, &[(c, true), (b'a', false)]);
            if c % 8 == 7 {
                // Forget the pool: comparisons are below.
                out.event(obj! { e: "forget" });
            }
        }
    }
    if a.key == 1 {
        ladder(&mut out, &mut r);
    }
    for _ in 0..a.n {
        let mut pool = Vec::new();
        let size = 3 + r.below(6);
        let mut last: Vec<(u8, bool)> = Vec::new();
        for _ in 0..size {
            let mut p = last.clone();
            // Relatives of the one before: same, changed, cut, extended.
            match r.below(6) {
                0 => {}
                1 if !p.is_empty() => {
                    let i = r.below(p.len());
                    p[i].1 = !p[i].1;
                }
                2 if !p.is_empty() => {
                    let i = r.below(p.len());
                    p[i].0 ^= 0x20;
                }
                3 if !p.is_empty() => {
                    let n = r.below(p.len());
                    p.truncate(n);
                }
                4 => {
                    p.push(element(&mut r));
                }
                _ => {
                    // Now and then around and beyond the word size of the flags.
                    let n = if r.one_in(8) { 30 + r.below(100) } else { r.below(7) };
                    p = (0..n).map(|_| element(&mut r)).collect();
                }
            }
            if p.len() > 130 {
                p.clear();
            }
            if let Some(l) = build(&mut out, &mut r, &p) {
                pool.push(l);
            } else {
                return out.finish();
            }
            last = p;
        }
        out.about_to(&J::from("comparing the literals built last"));
        compare(&mut out, &pool);
    }
    out.finish();
}
