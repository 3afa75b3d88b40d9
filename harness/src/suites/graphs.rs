//! Graphs, besides literals, handed to the graph store and to its small-buffer
//! engine directly.

use super::smallwrite::{items, lit, uniform};
use super::{reports, snap};
use crate::errors;
use crate::gen;
use crate::hooks::{error_info, Graph, Limits, Store};
use crate::json::J;
use crate::util::{guard, Out, Rng};
use crate::{arr, obj, Args};

struct Drawn {
    graph: Graph,
    n: usize,
    edges: Vec<(usize, usize)>,
    reports: Vec<(usize, u32)>,
}

/// A graph with reports among the first `known`; vertices are numbered with
/// the distinguished ones first.
fn draw(r: &mut Rng, known: u32, n: usize) -> Drawn {
    let mut graph = Graph::new();
    for _ in 0..n {
        graph.add_vertex();
    }
    let s = graph.snapshot();
    let mut at: Vec<usize> = s.special.to_vec();
    at.extend((0..s.reach.len()).filter(|i| !s.special.contains(i)));
    let vacuous = r.one_in(4);
    let mut edges = std::collections::BTreeSet::new();
    for _ in 0..(n + r.below(2 * n + 2)) {
        let (u, v) = match r.below(3) {
            0 => (r.below(2), r.below(4 + n)),
            1 => (r.below(4 + n), 2 + r.below(2)),
            _ => (r.below(4 + n), r.below(4 + n)),
        };
        if (vacuous || u > 1 || v < 2 || v > 3) && !s.edges.contains(&(at[u], at[v])) {
            edges.insert((u, v));
        }
    }
    for (u, v) in &edges {
        graph.add_edge(at[*u], at[*v]);
    }
    let mut reports = Vec::new();
    if known > 0 {
        for _ in 0..r.below(2 + n) {
            let (v, k) = (r.below(4 + n), r.below(known as usize) as u32);
            graph.add_report(at[v], k);
            reports.push((v, k));
        }
    }
    Drawn { graph, n, edges: edges.into_iter().collect(), reports }
}

impl Drawn {
    fn shown(&self) -> Vec<(&'static str, J)> {
        vec![
            ("n", J::from(self.n)),
            ("edges", J::A(self.edges.iter().map(|e| arr![e.0, e.1]).collect())),
            ("reports", J::A(self.reports.iter().map(|e| arr![e.0, e.1]).collect())),
        ]
    }
}

/// What matters about a graph offered, with as many reports and vertices.
#[derive(Clone, Copy, Debug)]
enum Offered {
    Plain,
    /// An edge from a start to an accept.
    Vacuous(usize, usize),
    /// A report with a least length there, at an accept.
    Least(usize, u64),
    /// The same, but nothing leads from it to an accept.
    LeastAside(usize),
    Som,
}

/// A store with n plain reports and then one with a least length; then a graph
/// of n + 1 vertices, each but one of these with a report.
fn offer_sized(out: &mut Out, r: &mut Rng, n: usize, kind: Offered) {
    let lim = Limits::default();
    let mut s = Store::new(1, &lim);
    let mut moves = vec![J::from(n), J::from(format!("{:?}", kind))];
    out.event(obj! { e: "new", n: 1, lim: snap::limits(&lim), snap: snap::state(&s.snapshot()) });
    let (place, least) = match kind {
        Offered::Least(at, least) => (at, least),
        Offered::LeastAside(at) => (at, 3),
        _ => (0, 0),
    };
    for i in 0..=n {
        let least = if i == place { least } else { 0 };
        let at = (false, i as u32 * 3, 0, None, i % 2 == 1, 0);
        let mut f = vec![("e", J::from("intern"))];
        f.extend(reports::shown(at));
        f.push(("least", J::from(least.to_string())));
        moves.push(J::O(f.clone()));
        out.about_to(&J::A(moves.clone()));
        let mut number = -1;
        match guard(|| s.intern(at, least).map(|k| number = i64::from(k))) {
            Err(m) => return out.event(obj! { e: "panic", msg: m }),
            Ok(Ok(())) => f.push(("out", J::from("ok"))),
            Ok(Err(e)) => f.push(("out", J::from(error_info(&e).0))),
        }
        f.push(("conflict", arr!["", "", "", ""]));
        f.push(("snap", snap::state(&s.snapshot())));
        f.push(("n", J::I(number)));
        out.event(J::O(f));
    }
    let mut graph = Graph::new();
    for _ in 0..=n {
        graph.add_vertex();
    }
    let g = graph.snapshot();
    let mut at: Vec<usize> = g.special.to_vec();
    at.extend((0..g.reach.len()).filter(|i| !g.special.contains(i)));
    let mut edges = Vec::new();
    let mut led = Vec::new();
    for i in 0..=n {
        edges.push((r.below(2), 4 + i));
        led.push((4 + i, i as u32));
        match kind {
            Offered::LeastAside(p) if p == i => edges.push((4 + i, 4 + (i + 1) % (n + 1))),
            _ => edges.push((4 + i, 2 + r.below(2))),
        }
    }
    if let Offered::Vacuous(u, v) = kind {
        edges.push((u, v));
    }
    for (u, v) in &edges {
        graph.add_edge(at[*u], at[*v]);
    }
    for (v, k) in &led {
        graph.add_report(at[*v], *k);
    }
    let som = matches!(kind, Offered::Som);
    let mut f = vec![("e", J::from("offer")), ("som", J::from(som))];
    f.extend(Drawn { graph: Graph::new(), n: n + 1, edges, reports: led }.shown());
    moves.push(J::O(f.clone()));
    out.about_to(&J::A(moves));
    match guard(|| s.add_small_write_graph(&graph, som)) {
        Ok(()) => f.push(("out", J::from("ok"))),
        Err(m) if m.contains("not implemented") || m.contains("not yet implemented") => f.push(("out", J::from("unable"))),
        Err(m) => return out.event(obj! { e: "panic", msg: m }),
    }
    f.push(("conflict", arr!["", "", "", ""]));
    f.push(("snap", snap::state(&s.snapshot())));
    out.event(J::O(f));
}

/// Graphs of many sizes.
fn sizes(out: &mut Out, r: &mut Rng, most: usize) {
    for &n in gen::SIZES.iter().filter(|n| **n <= most) {
        let some = |r: &mut Rng| *r.pick(&[0, n / 2, n - n.min(1), n]);
        offer_sized(out, r, n, Offered::Plain);
        for (u, v) in [(0, 2), (0, 3), (1, 2), (1, 3)] {
            offer_sized(out, r, n, Offered::Vacuous(u, v));
        }
        for place in [0, n / 2, n] {
            let least = *r.pick(&[1, 2, 255, 256, 1 << 32, u64::MAX]);
            offer_sized(out, r, n, Offered::Least(place, least));
        }
        let place = some(r);
        offer_sized(out, r, n, Offered::LeastAside(place));
        offer_sized(out, r, n, Offered::Som);
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let mut r = Rng::new(a.seed);
    if a.key == 2 {
        sizes(&mut out, &mut r, a.n);
        return out.finish();
    }
    'history: for _ in 0..a.n {
        let n = r.below(5);
        let mut lim = Limits::default();
        if r.one_in(6) {
            lim.limit_report_count = r.below(5);
        }
        if r.one_in(5) {
            lim.small_write_max_literals = r.below(3);
        }
        if r.one_in(12) {
            lim.allow_small_write = false;
        }
        let large = a.key == 1 && r.one_in(8);
        let mut s = Store::new(n, &lim);
        let mut moves: Vec<J> = vec![snap::limits(&lim)];
        out.event(obj! { e: "new", n: n, lim: snap::limits(&lim), snap: snap::state(&s.snapshot()) });
        // Reports without a least length only, so that more than one graph may come.
        let plain = r.one_in(2);
        for i in 0..(2 + r.below(12)) {
            let id = *r.pick(reports::IDS);
            let h = if r.one_in(14) { r.one_in(2) } else { id % 2 == 1 };
            let som = !h && r.one_in(4);
            let quiet = r.one_in(3);
            let known = s.snapshot().reports.num_reports as u32;
            let size = if large { 20 + r.below(300) } else { r.below(6) };
            let mut f;
            let mut number = -1;
            let mut interned = false;
            let got = match r.below(7) {
                0 | 1 => {
                    let len = 1 + r.below(4);
                    let l = uniform(&mut r, len);
                    f = vec![
                        ("e", J::from("add")),
                        ("lit", items(&l)),
                        ("len", J::from(l.len().to_string())),
                        ("i", J::from(i as u32)),
                        ("id", J::from(id.to_string())),
                        ("h", J::from(h)),
                        ("som", J::from(som)),
                        ("quiet", J::from(quiet)),
                    ];
                    moves.push(J::O(f.clone()));
                    out.about_to(&J::A(moves.clone()));
                    guard(|| s.add_literal(&lit(&l), i as u32, id, h, som, quiet).map(|b| if b { "taken" } else { "left" }))
                }
                2 | 3 => {
                    let g = draw(&mut r, known, size);
                    f = vec![
                        ("e", J::from("graph")),
                        ("i", J::from(i as u32)),
                        ("id", J::from(id.to_string())),
                        ("h", J::from(h)),
                        ("som", J::from(som)),
                    ];
                    moves.push(J::O(f.clone()));
                    out.about_to(&J::A(moves.clone()));
                    guard(|| s.add_graph(&g.graph, i as u32, id, h, som).map(|_| "taken"))
                }
                4 | 5 => {
                    let g = draw(&mut r, known, size);
                    let som = r.one_in(6);
                    f = vec![("e", J::from("offer")), ("som", J::from(som))];
                    f.extend(g.shown());
                    moves.push(J::O(f.clone()));
                    out.about_to(&J::A(moves.clone()));
                    match guard(|| s.add_small_write_graph(&g.graph, som)) {
                        Ok(()) => Ok(Ok("ok")),
                        Err(m) if m.contains("not implemented") || m.contains("not yet implemented") => Ok(Ok("unable")),
                        Err(m) => Err(m),
                    }
                }
                _ => {
                    let mut at = reports::attrs(&mut r, reports::IDS);
                    let least: u64 = if plain { 0 } else { *r.pick(&[0, 0, 1, 2, 255, 256, 1 << 32, u64::MAX]) };
                    at.4 &= !at.0;
                    f = vec![("e", J::from("intern"))];
                    f.extend(reports::shown(at));
                    f.push(("least", J::from(least.to_string())));
                    moves.push(J::O(f.clone()));
                    out.about_to(&J::A(moves.clone()));
                    interned = true;
                    guard(|| {
                        s.intern(at, least).map(|k| {
                            number = i64::from(k);
                            "ok"
                        })
                    })
                }
            };
            let sn = match guard(|| s.snapshot()) {
                Ok(sn) => sn,
                Err(m) => {
                    out.event(obj! { e: "panic", msg: m });
                    continue 'history;
                }
            };
            let over = !matches!(&got, Ok(Ok(_)));
            match got {
                Err(m) => {
                    out.event(obj! { e: "panic", msg: m });
                    continue 'history;
                }
                Ok(Ok(what)) => {
                    f.push(("out", J::from(what)));
                    f.push(("conflict", arr!["", "", "", ""]));
                }
                Ok(Err(e)) => {
                    f.push(("out", J::from(error_info(&e).0)));
                    f.push(("conflict", errors::read(&e).conflict_json()));
                }
            }
            f.push(("snap", snap::state(&sn)));
            if interned {
                f.push(("n", J::I(number)));
            }
            out.event(J::O(f));
            if over && !interned {
                continue 'history;
            }
        }
    }
    out.finish();
}
