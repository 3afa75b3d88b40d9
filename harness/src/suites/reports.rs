//! A report manager driven directly.

use super::snap;
use crate::errors;
use crate::json::J;
use crate::util::{guard, Out, Rng};
use crate::{arr, obj, Args};
use crate::hooks::{error_info, ReportAttrs, Reports};

pub const IDS: &[u32] = &[0, 1, 2, 3, 4_294_967_295, 2_147_483_648];

pub fn attrs(r: &mut Rng, ids: &[u32]) -> ReportAttrs {
    let id = *r.pick(ids);
    let adjust = *r.pick(&[0, 0, 0, 1, -1, i32::MAX, i32::MIN]);
    if r.one_in(3) {
        let dist = *r.pick(&[0, 1, 2, 5, 16_000, u64::MAX, 1 << 32]);
        (true, id, adjust, None, false, dist)
    } else {
        let key = if r.one_in(2) { None } else { Some(*r.pick(&[0, 1, 2, u32::MAX])) };
        (false, id, adjust, key, r.one_in(2), 0)
    }
}

/// Attributes as an event shows them.
pub fn shown(at: ReportAttrs) -> Vec<(&'static str, J)> {
    vec![
        ("som", J::from(at.0)),
        ("id", J::from(at.1.to_string())),
        ("adjust", J::from(at.2.to_string())),
        ("key", J::from(at.3.map_or("-1".to_string(), |k| k.to_string()))),
        ("quiet", J::from(at.4)),
        ("distance", J::from(at.5.to_string())),
    ]
}

/// Distinct ids all over the range.
fn far(i: usize, salt: u32) -> u32 {
    (i as u32).wrapping_mul(0x9e37_79b1) ^ salt
}

/// Many ids and reports at once; only the numbers are recorded.
fn bulk(out: &mut Out, r: &mut Rng) {
    for n in [10, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 4097, 16_385, 65_535, 65_537, 70_000] {
        for kind in 0..6 {
            let salt = r.next() as u32;
            // Close to each other, or apart.
            let near = r.one_in(3);
            let id = |i: usize| if near { salt.wrapping_add(i as u32) } else { far(i, salt) };
            let at = |i: usize| match kind {
                0 => (false, id(i), 0, None, false, 0),
                1 => (true, id(i), 0, None, false, 3),
                2 => (false, 7, 0, Some(id(i)), false, 0),
                3 => (true, 7, 0, None, false, (u64::from(id(i)) << 32) | 5),
                4 => (false, 7, id(i) as i32, None, true, 0),
                _ => (false, id(i / 2), 0, None, i % 2 == 1, 0),
            };
            out.about_to(&obj! { n: n, kind: kind, salt: salt });
            let got = guard(|| {
                let mut m = Reports::new(n);
                let ns: Vec<i64> = (0..n).map(|i| m.intern(at(i)).map_or(-1, i64::from)).collect();
                let mut again = Vec::new();
                for _ in 0..200 {
                    let i = r.below(n);
                    let no = m.intern(at(i)).map_or(-1, i64::from);
                    again.push(arr![i, J::I(no), m.resolves_to(i as u32, at(i))]);
                }
                let full = m.intern((true, 6, 6, None, false, 6)).is_err();
                let s = m.snapshot();
                obj! { e: "bulk", n: n, ns: J::A(ns.into_iter().map(J::I).collect()), again: J::A(again), full: full, count: s.num_reports, inv: s.inverse }
            });
            out.event(got.unwrap_or_else(|p| obj! { e: "panic", msg: p }));
        }
        let salt = r.next() as u32;
        out.about_to(&obj! { n: n, salt: salt });
        let got = guard(|| {
            let mut m = Reports::new(n);
            // Every third agrees to a single match.
            let odd = |i: usize| i % 3 == 1;
            let bad = (0..n).filter(|i| m.register(far(*i, salt), odd(*i), *i as u32).is_err()).count();
            let keys: Vec<u32> = (0..n).map(|i| m.ekey(far(i, salt))).collect();
            let mut again = Vec::new();
            for _ in 0..200 {
                let i = r.below(n);
                let later = n + r.below(9);
                let h = r.one_in(2);
                let (o, c) = match m.register(far(i, salt), h, later as u32) {
                    Ok(()) => (true, arr!["", "", "", ""]),
                    Err(e) => (false, errors::read(&e).conflict_json()),
                };
                again.push(obj! {
                    i: i, id: far(i, salt).to_string(), later: later, h: h, first: odd(i), ok: o, conflict: c, key: m.ekey(far(i, salt)),
                });
            }
            let s = m.snapshot();
            obj! { e: "bulkids", n: n, bad: bad, keys: keys, again: J::A(again), ids: s.ext.len(), gex: s.global_exhaust }
        });
        out.event(got.unwrap_or_else(|p| obj! { e: "panic", msg: p }));
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let mut r = Rng::new(a.seed);
    if a.key == 1 {
        bulk(&mut out, &mut r);
    }
    'history: for _ in 0..a.n {
        // Now and then a long one.
        let long = r.one_in(40);
        let ids: Vec<u32> = if long || r.one_in(3) {
            let salt = r.next() as u32;
            (0..if long { 200 } else { 7 }).map(|i| far(i, salt)).collect()
        } else {
            IDS.to_vec()
        };
        let limit = if long { 60 + r.below(70) } else if r.one_in(3) { 1000 } else { r.below(7) };
        let mut moves: Vec<J> = vec![obj! { limit: limit }];
        let mut m = Reports::new(limit);
        out.event(obj! { e: "new", limit: limit });
        let steps = if long { 300 } else { 4 + r.below(30) };
        for i in 0..steps {
            match r.below(5) {
                0 => {
                    let id = *r.pick(&ids);
                    // Mostly agreeing.
                    let h = if r.one_in(10) { r.one_in(2) } else { id % 2 == 1 };
                    let index = i as u32;
                    moves.push(obj! { register: id, h: h });
                    out.about_to(&J::A(moves.clone()));
                    let (o, c, over) = match guard(|| m.register(id, h, index)) {
                        Err(p) => {
                            out.event(obj! { e: "panic", msg: p });
                            continue 'history;
                        }
                        Ok(Ok(())) => ("ok".to_string(), arr!["", "", "", ""], false),
                        Ok(Err(e)) => (error_info(&e).0, errors::read(&e).conflict_json(), true),
                    };
                    out.event(obj! {
                        e: "register", id: id.to_string(), h: h, i: index,
                        out: o, conflict: c, snap: snap::reports(&m.snapshot()),
                    });
                    if over {
                        continue 'history;
                    }
                }
                1 => {
                    let id = *r.pick(&ids);
                    moves.push(obj! { key: id });
                    out.about_to(&J::A(moves.clone()));
                    match guard(|| m.ekey(id)) {
                        Err(p) => {
                            out.event(obj! { e: "panic", msg: p });
                            continue 'history;
                        }
                        Ok(n) => out.event(obj! {
                            e: "key", id: id.to_string(), n: n, snap: snap::reports(&m.snapshot()),
                        }),
                    }
                }
                _ => {
                    let at = attrs(&mut r, &ids);
                    let shown = shown(at);
                    moves.push(J::O(shown.clone()));
                    out.about_to(&J::A(moves.clone()));
                    let mut f = vec![("e", J::from("intern"))];
                    f.extend(shown);
                    let got = guard(|| {
                        let res = m.intern(at);
                        let s = m.snapshot();
                        let leads: Vec<u32> = (0..s.num_reports as u32).filter(|n| m.resolves_to(*n, at)).collect();
                        (res, s, leads)
                    });
                    match got {
                        Err(p) => {
                            out.event(obj! { e: "panic", msg: p });
                            continue 'history;
                        }
                        Ok((res, s, leads)) => {
                            match res {
                                Ok(n) => {
                                    f.push(("out", J::from("ok")));
                                    f.push(("n", J::from(n)));
                                }
                                Err(e) => {
                                    f.push(("out", J::from(error_info(&e).0)));
                                    f.push(("n", J::I(-1)));
                                }
                            }
                            f.push(("leads", J::from(leads)));
                            f.push(("snap", snap::reports(&s)));
                            out.event(J::O(f));
                        }
                    }
                }
            }
        }
    }
    out.finish();
}
