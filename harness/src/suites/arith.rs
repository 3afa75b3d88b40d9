//! Alignment and depths.

use crate::json::J;
use crate::util::{guard, Out, Rng};
use crate::{obj, Args};
use crate::hooks::{align_u16, align_u32, align_u64, align_u8, align_usize, VpDepth};
use std::cmp::Ordering;

fn limbs(v: u64, width: u32) -> J {
    let n = if width <= 16 { 1 } else { width / 16 };
    J::A((0..n).map(|i| J::from((v >> (16 * i)) & 0xffff)).collect())
}

fn call(op: &str, kind: &str, v: u64, n: u8) -> u64 {
    match kind {
        "u8" => align_u8(op, v as u8, n).into(),
        "u16" => align_u16(op, v as u16, n).into(),
        "u32" => align_u32(op, v as u32, n).into(),
        "u64" => align_u64(op, v, n),
        _ => align_usize(op, v as usize, n) as u64,
    }
}

fn values(r: &mut Rng, width: u32, max: u64, n: usize) -> Vec<u64> {
    if width == 8 {
        return (0..=max).collect();
    }
    let mut v: Vec<u64> = Vec::new();
    for b in 0..width {
        let p = 1_u64 << b;
        for d in [0, 1, 2, 15, 16, 17, 63, 64, 65] {
            v.push(p.wrapping_add(d));
            v.push(p.wrapping_sub(d));
        }
    }
    for _ in 0..n {
        let x = r.next();
        v.push(x >> r.below(64));
        v.push(x & !0xff);
        v.push(max.wrapping_sub(x & 0x1ff));
    }
    v.push(max);
    v.push(0);
    v.retain(|x| *x <= max);
    v.sort_unstable();
    v.dedup();
    v
}

fn align(out: &mut Out, r: &mut Rng, n: usize) {
    for (kind, width, max) in [
        ("u8", 8, u64::from(u8::MAX)),
        ("u16", 16, u64::from(u16::MAX)),
        ("u32", 32, u64::from(u32::MAX)),
        ("u64", 64, u64::MAX),
        ("usize", 64, u64::MAX),
    ] {
        for op in ["up16", "down16", "upn", "downn", "upcl"] {
            let ns: &[u8] = match op {
                "up16" | "down16" => &[16],
                "upcl" => &[64],
                _ => &[1, 2, 4, 8, 16, 32, 64, 128],
            };
            for m in ns {
                let up = op.starts_with("up");
                let ins: Vec<u64> = values(r, width, max, n)
                    .into_iter()
                    .filter(|v| !up || *v <= max - (u64::from(*m) - 1))
                    .collect();
                let mut outs = Vec::new();
                for v in &ins {
                    match guard(|| call(op, kind, *v, *m)) {
                        Ok(o) => outs.push(limbs(o, width)),
                        Err(p) => {
                            out.event(obj! { e: "panic", op: "align", msg: format!("{} {} {} {}: {}", op, kind, v, m, p) });
                            return;
                        }
                    }
                }
                out.event(obj! {
                    e: "align", op: op, width: kind, n: *m,
                    in: J::A(ins.iter().map(|v| limbs(*v, width)).collect()),
                    out: J::A(outs),
                });
            }
        }
    }
}

fn number(o: Ordering) -> i64 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

fn depths(out: &mut Out, r: &mut Rng, n: usize) {
    const INF: u64 = 0x7fff_ffff;
    for (kind, max) in [("u32", u64::from(u32::MAX)), ("usize", u64::MAX)] {
        let mut vs = values(r, if kind == "u32" { 32 } else { 64 }, max, n);
        for d in 0..4 {
            vs.push(INF - d);
            vs.push(INF + d);
            if kind == "usize" {
                vs.push((1 << 32) + d);
                vs.push((1 << 32) + INF - d);
                vs.push((1 << 32) + INF + d);
            }
        }
        let mut res = Vec::new();
        for v in &vs {
            let got = guard(|| {
                if kind == "u32" {
                    VpDepth::from_u32(*v as u32).is_some()
                } else {
                    VpDepth::from_usize(*v as usize).is_some()
                }
            });
            match got {
                Ok(b) => res.push(b),
                Err(p) => {
                    out.event(obj! { e: "panic", op: "depth", msg: format!("{} {}: {}", kind, v, p) });
                    return;
                }
            }
        }
        out.event(obj! {
            e: "convert", width: kind,
            in: J::A(vs.iter().map(|v| limbs(*v, 64)).collect()),
            out: res,
        });
    }
    for k in 0..(4 + n / 16) {
        let mut pool: Vec<(bool, u64)> = vec![(true, 0), (false, 0), (false, INF - 1), (true, 0)];
        for _ in 0..14 {
            let v = match r.below(3) {
                0 => r.next() % INF,
                1 => r.below(300) as u64,
                _ => (r.next() % INF) >> r.below(31),
            };
            pool.push((false, v));
            if r.one_in(4) {
                pool.push((false, v));
            }
            if r.one_in(4) && v > 0 {
                pool.push((false, v ^ (1 << r.below(31)) % INF));
            }
        }
        pool.retain(|(_, v)| *v < INF);
        // Both ways to make a depth of a count.
        let ds: Vec<Option<VpDepth>> = pool
            .iter()
            .enumerate()
            .map(|(i, (inf, v))| {
                if *inf {
                    Some(VpDepth::infinity())
                } else if (i + k) % 2 == 0 {
                    guard(|| VpDepth::from_u32(*v as u32)).ok().flatten()
                } else {
                    guard(|| VpDepth::from_usize(*v as usize)).ok().flatten()
                }
            })
            .collect();
        if ds.iter().any(Option::is_none) {
            out.event(obj! { e: "panic", op: "depth", msg: "a count is not a depth" });
            return;
        }
        let ds: Vec<VpDepth> = ds.into_iter().flatten().collect();
        let got = guard(|| {
            let all = |f: &dyn Fn(&VpDepth, &VpDepth) -> J| {
                J::A(ds.iter().map(|a| J::A(ds.iter().map(|b| f(a, b)).collect())).collect())
            };
            obj! {
                e: "depths",
                pool: J::A(pool.iter().map(|(inf, v)| obj! { inf: *inf, v: limbs(*v, 64) }).collect()),
                cmp: all(&|a, b| J::I(number(a.compare(b).0))),
                pcmp: all(&|a, b| J::I(a.compare(b).1.map_or(9, number))),
                eq: all(&|a, b| J::from(a.compare(b).2)),
            }
        });
        match got {
            Ok(j) => out.event(j),
            Err(p) => out.event(obj! { e: "panic", op: "depth", msg: p }),
        }
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let mut r = Rng::new(a.seed);
    out.about_to(&J::from("alignment and depths"));
    align(&mut out, &mut r, a.n);
    depths(&mut out, &mut r, a.n);
    out.finish();
}
