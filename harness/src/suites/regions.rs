//! Positions wired to each other, region by region.

use crate::hooks::{connect_regions, region_constants, RegionPosition, RegionsSnapshot};
use crate::gen;
use crate::json::J;
use crate::util::{guard, Out, Rng};
use crate::{arr, obj, Args};

const EPSILON: usize = usize::MAX;
const NAMES: [&str; 3] = ["nofloat", "mustfloat", "line"];

struct Names {
    special: [usize; 4],
    flags: [u32; 3],
}

impl Names {
    /// Distinguished positions first.
    fn number(&self, v: usize) -> J {
        if v == EPSILON {
            return J::I(-1);
        }
        match self.special.iter().position(|s| *s == v) {
            Some(i) => J::from(i),
            None => J::from(v + self.special.iter().filter(|s| **s > v).count()),
        }
    }
    fn index(&self, v: usize) -> usize {
        if v < 4 {
            return self.special[v];
        }
        (0..).filter(|i| !self.special.contains(i)).nth(v - 4).unwrap()
    }
    fn info(&self, p: &RegionPosition) -> J {
        let mut f: Vec<J> = (0..3).filter(|i| p.1 & self.flags[*i] != 0).map(|i| J::from(NAMES[i])).collect();
        if p.1 & !self.flags.iter().fold(0, |a, b| a | b) != 0 {
            f.push(J::from("unknown"));
        }
        arr![self.number(p.0), J::A(f)]
    }
    fn infos(&self, v: &[RegionPosition]) -> J {
        J::A(v.iter().map(|p| self.info(p)).collect())
    }
    fn snap(&self, s: &RegionsSnapshot) -> J {
        obj! {
            n: s.num_vertices,
            wired: J::A(s.successors.iter().map(|(a, b)| arr![self.number(*a), self.info(b)]).collect()),
        }
    }
    /// A region of positions, each once.
    fn region(&self, r: &mut Rng, n: usize, size: usize, last: bool) -> Vec<RegionPosition> {
        let mut v: Vec<RegionPosition> = Vec::new();
        for _ in 0..size {
            let p = match r.below(5) {
                0 if !last => EPSILON,
                0 | 1 => self.index(r.below(4)),
                _ => self.index(r.below(4 + n)),
            };
            if v.iter().all(|q| q.0 != p) {
                let mut f = 0;
                if r.one_in(2) {
                    for k in self.flags {
                        if r.one_in(3) {
                            f |= k;
                        }
                    }
                }
                v.push((p, f));
            }
        }
        v
    }
}

type Region = (Vec<RegionPosition>, Vec<RegionPosition>);

fn wire(out: &mut Out, names: &Names, n: usize, asserts: &[RegionPosition], regions: &[Region]) {
    out.about_to(&obj! {
        n: n, asserts: names.infos(asserts),
        regions: J::A(regions.iter().map(|x| arr![names.infos(&x.0), names.infos(&x.1)]).collect()),
    });
    let line: Vec<J> = asserts.iter().filter(|a| a.1 & names.flags[2] != 0).map(|a| names.number(a.0)).collect();
    match guard(|| connect_regions(n, asserts, regions)) {
        Err(p) => out.event(obj! { e: "panic", msg: p }),
        Ok(snaps) => {
            out.event(obj! { e: "new", n: n, line: J::A(line), snap: names.snap(&snaps[0]) });
            for (x, s) in regions.iter().zip(&snaps[1..]) {
                out.event(obj! { e: "connect", lasts: names.infos(&x.0), firsts: names.infos(&x.1), snap: names.snap(s) });
            }
        }
    }
}

/// Regions of many sizes, and many of them.
fn sizes(out: &mut Out, r: &mut Rng, names: &Names, most: usize) {
    for &n in gen::SIZES.iter().filter(|n| **n > 0 && **n <= most) {
        let plain = |from: usize, count: usize| -> Vec<RegionPosition> { (from..from + count).map(|i| (names.index(4 + i), 0)).collect() };
        let mixed = |r: &mut Rng, v: &mut Vec<RegionPosition>| {
            for p in v.iter_mut() {
                if r.one_in(4) {
                    p.1 = names.flags[r.below(3)];
                }
            }
            let at = r.below(v.len() + 1);
            v.insert(at, (names.index(2 + r.below(2)), 0));
        };
        let asserts: Vec<RegionPosition> = (0..2).map(|_| (names.index(4 + r.below(n)), names.flags[2])).collect();
        // Many lasts and few firsts, and the other way round.
        let few = plain(n, 2);
        let mut led = few.clone();
        mixed(r, &mut led);
        wire(out, names, n + 2, &asserts, &[(plain(0, n), few.clone())]);
        wire(out, names, n + 2, &asserts, &[(plain(0, n), led)]);
        let mut many = plain(0, n);
        wire(out, names, n + 2, &asserts, &[(few.clone(), many.clone())]);
        mixed(r, &mut many);
        let starts = vec![(names.index(0), 0), (names.index(1), 0)];
        wire(out, names, n + 2, &asserts, &[(few.clone(), many.clone()), (starts, many)]);
        // As many regions in a row.
        if n <= 140 {
            let row: Vec<Region> = (0..n)
                .map(|i| {
                    let accept = if r.one_in(5) { names.index(2) } else { names.index(5 + i) };
                    (plain(i, 1), vec![(accept, 0)])
                })
                .collect();
            wire(out, names, n + 2, &asserts, &row);
        }
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let mut r = Rng::new(a.seed);
    let (special, flags) = match guard(region_constants) {
        Ok(c) => c,
        Err(p) => {
            out.event(obj! { e: "panic", msg: p });
            return out.finish();
        }
    };
    let names = Names { special, flags };
    let subsets: Vec<u32> = (0..8).map(|m| (0..3).filter(|i| m >> i & 1 == 1).map(|i| flags[i]).sum()).collect();
    if a.key == 0 {
        // Every pair of a last and a first.
        for line in [vec![], vec![0], vec![1], vec![4], vec![2, 5], vec![3]] {
            let asserts: Vec<RegionPosition> = line.iter().map(|v| (names.index(*v), flags[2])).collect();
            for from in [0, 1, 2, 3, 4] {
                for from_flags in &subsets {
                    for to in [EPSILON, 0, 1, 2, 3, 4, 5] {
                        let p = if to == EPSILON { to } else { names.index(to) };
                        let regions: Vec<Region> =
                            subsets.iter().map(|f| (vec![(names.index(from), *from_flags)], vec![(p, *f)])).collect();
                        wire(&mut out, &names, 2, &asserts, &regions);
                    }
                }
            }
        }
    }
    if a.key == 1 {
        sizes(&mut out, &mut r, &names, a.n);
        return out.finish();
    }
    for i in 0..a.n {
        let large = a.key == 0 && i % 50 == 0;
        let n = if large { 20 + r.below(300) } else { 1 + r.below(8) };
        let mut asserts = Vec::new();
        for v in 0..(4 + n) {
            if r.one_in(4) {
                asserts.push((names.index(v), *r.pick(&subsets)));
            }
        }
        let mut regions = Vec::new();
        for _ in 0..(1 + r.below(6)) {
            let (x, y) = if large { (1 + r.below(30), 1 + r.below(n)) } else { (1 + r.below(4), r.below(6)) };
            regions.push((names.region(&mut r, n, x, true), names.region(&mut r, n, y, false)));
        }
        if r.one_in(3) {
            // One again.
            let x = regions[r.below(regions.len())].clone();
            regions.push(x);
        }
        wire(&mut out, &names, n, &asserts, &regions);
    }
    out.finish();
}
