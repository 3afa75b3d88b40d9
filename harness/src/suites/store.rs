//! Literals handed to the graph store directly: also those that no pattern
//! makes, with case-sensitive and caseless letters mixed or reporting the
//! start of match.

use super::smallwrite::{items, lit, uniform};
use super::{reports, snap};
use crate::errors;
use crate::json::J;
use crate::util::{guard, Out, Rng};
use crate::{arr, gen, obj, Args};
use crate::hooks::{error_info, Limits, Store};

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let mut r = Rng::new(a.seed);
    'history: for _ in 0..a.n {
        // Now and then a long history of long literals.
        let long = a.key == 1 && r.one_in(10);
        let wide = r.one_in(3);
        let salt = r.next() as u32;
        let n = r.below(8);
        let mut lim = Limits::default();
        if r.one_in(3) {
            lim.limit_report_count = if long { 60 + r.below(20) } else { r.below(5) };
        }
        lim.flood_as_puffette = r.one_in(2);
        if r.one_in(12) {
            lim.shortcut_literals = false;
        }
        if r.one_in(3) {
            lim.small_write_largest_buffer = if long { 100 + r.below(200) } else { r.below(5) };
        }
        if r.one_in(4) {
            lim.small_write_max_literals = if long { 60 + r.below(20) } else { r.below(5) };
        }
        if r.one_in(10) {
            lim.allow_small_write = false;
        }
        let mut s = Store::new(n, &lim);
        let mut moves: Vec<J> = vec![snap::limits(&lim)];
        out.event(obj! { e: "new", n: n, lim: snap::limits(&lim), snap: snap::state(&s.snapshot()) });
        for i in 0..if long { 90 } else { 2 + r.below(12) } {
            let len = if long && r.one_in(5) { gen::SIZES[r.below(76)] } else { 1 + r.below(6) };
            let mut l = uniform(&mut r, len);
            if r.one_in(4) {
                let k = r.below(l.len());
                l[k] = (b'b', r.one_in(2));
                let k = r.below(l.len());
                l[k] = (b'a', r.one_in(2));
            }
            let id = if long || wide { (r.below(if long { 150 } else { 6 }) as u32).wrapping_mul(0x9e37_79b1) ^ salt } else { *r.pick(reports::IDS) };
            let som = r.one_in(4);
            let h = if !long && r.one_in(12) { r.one_in(2) } else { id % 2 == 1 };
            // Single-match and start of match exclude each other.
            let som = som && !h;
            let quiet = r.one_in(4);
            moves.push(arr![items(&l), id, h, som, quiet]);
            out.about_to(&J::A(moves.clone()));
            let mut f = vec![
                ("e", J::from("add")),
                ("lit", items(&l)),
                ("len", J::from(l.len().to_string())),
                ("i", J::from(i as u32)),
                ("id", J::from(id.to_string())),
                ("h", J::from(h)),
                ("som", J::from(som)),
                ("quiet", J::from(quiet)),
            ];
            let got = guard(|| {
                let res = s.add_literal(&lit(&l), i as u32, id, h, som, quiet);
                (res, s.snapshot())
            });
            match got {
                Err(m) => {
                    out.event(obj! { e: "panic", msg: m });
                    continue 'history;
                }
                Ok((res, sn)) => {
                    let mut over = false;
                    match res {
                        Ok(b) => {
                            f.push(("out", J::from(if b { "taken" } else { "left" })));
                            f.push(("conflict", arr!["", "", "", ""]));
                        }
                        Err(e) => {
                            over = true;
                            f.push(("out", J::from(error_info(&e).0)));
                            f.push(("conflict", errors::read(&e).conflict_json()));
                        }
                    }
                    f.push(("snap", snap::state(&sn)));
                    out.event(J::O(f));
                    if over {
                        continue 'history;
                    }
                }
            }
        }
    }
    out.finish();
}
