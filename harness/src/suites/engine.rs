//! Choice of the engine, modes and scans.

#[cfg(not(vp_public))]
pub use suite::run;

use crate::util::Rng;
use rescan::{Mode, SomHorizon};

#[cfg(not(vp_public))]
const RESOURCES: &[&str] = &[
    "outfixes",
    "suffixes",
    "leftfixes",
    "literals",
    "states",
    "groups",
    "lit_delay",
    "lit_check",
    "anchored",
    "anchored_multiple",
    "anchored_large",
    "floating",
    "eod",
];

pub const MODES: &[&str] = &["block", "stream", "streamS", "streamM", "streamL", "vectored"];

pub fn mode(name: &str) -> Mode {
    match name {
        "block" => Mode::Block,
        "stream" => Mode::Stream(None),
        "streamS" => Mode::Stream(Some(SomHorizon::Small)),
        "streamM" => Mode::Stream(Some(SomHorizon::Medium)),
        "streamL" => Mode::Stream(Some(SomHorizon::Large)),
        "vectored" => Mode::Vectored,
        _ => unreachable!(),
    }
}

pub fn buffer(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => 1 + r.below(3),
        2 => 60 + r.below(12),
        3 => 4096,
        4 => 65_537,
        _ => r.below(300),
    };
    match r.below(3) {
        0 => vec![r.byte(); n],
        1 => (0..n).map(|_| r.byte()).collect(),
        _ => b"abcABC(|)*".iter().copied().cycle().take(n).collect(),
    }
}

#[cfg(not(vp_public))]
mod suite {
    use super::*;
    use crate::hooks::{database, database_info, mode_info, pick, scratch};
    use crate::util::{guard, Out};
    use crate::{arr, gen, obj, Args};
    use rescan::{compile_multi, scan, Flags};

    pub fn run(a: &Args) {
        let mut out = Out::new(&a.out, a.journal.as_deref());
        let mut r = Rng::new(a.seed);
        // Every set of resources.
        for streaming in [false, true] {
            let all: Vec<u32> = (0..(1 << RESOURCES.len())).collect();
            for part in all.chunks(512) {
                let mut engines = Vec::new();
                for mask in part {
                    let used: Vec<&str> = (0..RESOURCES.len()).filter(|i| mask >> i & 1 == 1).map(|i| RESOURCES[i]).collect();
                    out.about_to(&obj! { streaming: streaming, mask: *mask });
                    match guard(|| pick(&used, streaming)) {
                        Ok(e) => engines.push(e),
                        Err(p) => {
                            out.event(obj! { e: "panic", msg: p });
                            return out.finish();
                        }
                    }
                }
                out.event(obj! {
                    e: "pick", names: RESOURCES.to_vec(), masks: part.to_vec(), engines: engines, streaming: streaming,
                });
            }
        }
        for m in MODES {
            match guard(|| mode_info(&mode(m))) {
                Ok((s, v, p)) => out.event(obj! { e: "mode", mode: *m, streaming: s, vectored: v, som: p }),
                Err(p) => out.event(obj! { e: "panic", msg: p }),
            }
        }
        engines(&mut out, &mut r);
        if a.key == 1 {
            long_scans(&mut out, &mut r);
        }
        // One scratch for all, and others.
        let mut shared = scratch();
        for i in 0..a.n {
            let m = MODES[i % MODES.len()];
            let n = 1 + r.below(4);
            let pats: Vec<String> = (0..n).map(|_| gen::good(&mut r)).collect();
            let refs: Vec<&str> = pats.iter().map(|s| &s[..]).collect();
            let flags: Vec<Flags> = (0..n).map(|_| Flags::from_bits(gen::flags(&mut r) & !0x508).unwrap()).collect();
            let ids: Vec<u32> = (0..n).map(|_| r.below(4) as u32).collect();
            out.about_to(&obj! { mode: m, pats: pats.clone() });
            let bufs: Vec<Vec<u8>> = (0..(1 + r.below(6))).map(|_| buffer(&mut r)).collect();
            let got = guard(|| {
                let db = compile_multi(&refs, &flags, &ids, &mode(m)).map_err(|e| e.to_string())?;
                let before = database_info(&db);
                let mut own = scratch();
                let sc = if i % 3 == 0 { &mut own } else { &mut shared };
                let results: Vec<&str> = bufs
                    .iter()
                    .enumerate()
                    .map(|(k, b)| if scan(&db, &b[(k * 3 % 17).min(b.len())..], sc).is_ok() { "ok" } else { "error" })
                    .collect();
                Ok::<_, String>((before, results, database_info(&db)))
            });
            match got {
                Ok(Ok((b, results, f))) => out.event(obj! {
                    e: "scan", mode: m, before: arr![b.1, b.0], results: results, after: arr![f.1, f.0],
                }),
                // Not accepted: another property's business.
                Ok(Err(_)) => {}
                Err(p) => out.event(obj! { e: "panic", msg: p }),
            }
        }
        out.finish();
    }

    /// Databases that run each of the engines, in each mode.
    fn engines(out: &mut Out, r: &mut Rng) {
        for e in ["full", "literal", "outfix"] {
            for m in MODES {
                out.about_to(&obj! { engine: e, mode: *m });
                let bufs: Vec<Vec<u8>> = (0..40).map(|_| buffer(r)).collect();
                let got = guard(|| {
                    let db = database(e, &mode(m));
                    let before = database_info(&db);
                    let mut sc = scratch();
                    let scan = |b: &Vec<u8>| if scan(&db, b, &mut sc).is_ok() { "ok" } else { "error" };
                    let results: Vec<&str> = bufs.iter().map(scan).collect();
                    (before, results, database_info(&db))
                });
                match got {
                    Ok((b, results, f)) => out.event(obj! {
                        e: "scan", mode: *m, before: arr![b.1, b.0], results: results, after: arr![f.1, f.0],
                    }),
                    Err(p) => out.event(obj! { e: "panic", msg: p }),
                }
            }
        }
    }

    /// Long buffers, and many scans of one database.
    fn long_scans(out: &mut Out, r: &mut Rng) {
        let most = (0..33 << 20).map(|i: u32| (i.wrapping_mul(0x9e37_79b1) >> 24) as u8).collect::<Vec<u8>>();
        for (i, m) in MODES.iter().cycle().take(24).enumerate() {
            let n = [1, 2, 40, 300][i % 4];
            let pats: Vec<String> = (0..n).map(|_| gen::good(r)).collect();
            let refs: Vec<&str> = pats.iter().map(|s| &s[..]).collect();
            let flags = vec![Flags::empty(); n];
            let ids: Vec<u32> = (0..n as u32).collect();
            out.about_to(&obj! { mode: *m, long: i });
            let got = guard(|| {
                let db = compile_multi(&refs, &flags, &ids, &mode(m)).map_err(|e| e.to_string())?;
                let before = database_info(&db);
                let mut sc = scratch();
                let mut results = Vec::new();
                for shift in 0..=25 {
                    for d in [-1_i64, 0, 1] {
                        let n = ((1_i64 << shift) + d) as usize;
                        let at = if shift < 20 { r.below(1 << 20) } else { r.below(9) };
                        results.push(scan(&db, &most[at..at + n], &mut sc).is_ok());
                    }
                }
                for k in 0..if i < 6 { 70_000 } else { 300 } {
                    results.push(scan(&db, &most[k..k + 3], &mut sc).is_ok());
                }
                results.dedup();
                let results: Vec<&str> = results.iter().map(|ok| if *ok { "ok" } else { "error" }).collect();
                Ok::<_, String>((before, results, database_info(&db)))
            });
            match got {
                Ok(Ok((b, results, f))) => out.event(obj! {
                    e: "scan", mode: *m, before: arr![b.1, b.0], results: results, after: arr![f.1, f.0],
                }),
                Ok(Err(_)) => {}
                Err(p) => out.event(obj! { e: "panic", msg: p }),
            }
        }
    }
}
