//! Automaton graphs grown at random.

use crate::json::J;
use crate::util::{guard, ranges, Out, Rng};
use crate::{arr, obj, Args};
use crate::hooks::{Graph, GraphSnapshot};

/// Numbers of the vertices with the distinguished ones first.
fn order(s: &GraphSnapshot) -> Vec<usize> {
    let mut v: Vec<usize> = s.special.to_vec();
    v.extend((0..s.reach.len()).filter(|i| !s.special.contains(i)));
    v
}

fn numbers(v: &[u32]) -> J {
    J::A(v.iter().map(|k| J::from(k.to_string())).collect())
}

fn snap(s: &GraphSnapshot) -> J {
    let at = order(s);
    let num = |v: usize| at.iter().position(|x| *x == v).unwrap_or(9999);
    obj! {
        special: J::A(s.special.iter().map(|v| J::from(num(*v))).collect()),
        nv: s.num_vertices,
        edges: J::A(s.edges.iter().map(|e| arr![num(e.0), num(e.1)]).collect()),
        reports: J::A(at.iter().map(|v| numbers(s.reports.get(*v).map_or(&[], |x| &x[..]))).collect()),
        reach: J::A(at.iter().map(|v| s.reach.get(*v).map_or(J::A(vec![]), ranges)).collect()),
        vac: s.is_vacuous,
        all: numbers(&s.all_reports),
    }
}

/// A graph of many vertices, seen as it is finished.
fn large(out: &mut Out, r: &mut Rng, n: usize) {
    let mut es = std::collections::BTreeSet::new();
    let mut reps = Vec::new();
    let some = |r: &mut Rng| if r.one_in(4) { r.below(4) } else { r.below(4 + n) };
    for _ in 0..(n + r.below(n)) {
        let (u, v) = (some(r), some(r));
        es.insert((u, v));
    }
    for v in 4..(4 + n) {
        if r.one_in(3) {
            es.insert((v, 2 + r.below(2)));
        }
        if r.one_in(2) {
            reps.push((v, r.next() as u32));
            if r.one_in(2) {
                reps.push((v, r.below(3) as u32));
            }
        }
    }
    // One vertex may have very many.
    let v = some(r);
    for k in 0..r.below(2 * n) {
        reps.push((v, k as u32));
        if r.one_in(3) {
            es.insert((v, 4 + r.below(n)));
        }
    }
    if !r.one_in(6) {
        for s in 0..2 {
            for t in 2..4 {
                es.remove(&(s, t));
            }
        }
    }
    out.about_to(&obj! { vertices: n });
    let got = guard(|| {
        let mut g = Graph::new();
        for _ in 0..n {
            g.add_vertex();
        }
        let s = g.snapshot();
        let at = order(&s);
        es.retain(|e| !s.edges.contains(&(at[e.0], at[e.1])));
        for (u, v) in &es {
            g.add_edge(at[*u], at[*v]);
        }
        for (v, k) in &reps {
            g.add_report(at[*v], *k);
        }
        snap(&g.snapshot())
    });
    out.event(match got {
        Ok(s) => obj! {
            e: "large", n: n,
            edges: J::A(es.iter().map(|e| arr![e.0, e.1]).collect()),
            reports: J::A(reps.iter().map(|e| arr![e.0, e.1.to_string()]).collect()),
            snap: s,
        },
        Err(p) => obj! { e: "panic", msg: p },
    });
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let mut r = Rng::new(a.seed);
    if a.key == 1 {
        for n in [5, 10, 20, 28, 29, 31, 33, 50, 60, 61, 63, 65, 100, 123, 125, 127, 129, 200, 251, 253, 255, 257, 300, 400, 500, 513, 700, 1_021, 1_025] {
            for _ in 0..if n < 140 { 6 } else { 2 } {
                large(&mut out, &mut r, n);
            }
        }
    }
    'history: for _ in 0..a.n {
        let mut g = Graph::new();
        let mut n = 4;
        let mut moves: Vec<J> = Vec::new();
        let mut have: Vec<(usize, usize)> = vec![];
        out.event(obj! { e: "new", snap: snap(&g.snapshot()) });
        for _ in 0..(3 + r.below(14)) {
            let at = order(&g.snapshot());
            let any = |r: &mut Rng, n: usize| if r.one_in(2) { r.below(4) } else { r.below(n) };
            let kind = r.below(5);
            let (mut u, mut v, rep) = (any(&mut r, n), any(&mut r, n), if r.one_in(5) { r.next() as u32 } else { r.below(5) as u32 });
            if kind == 1 && r.one_in(2) {
                u = any(&mut r, n);
                v = 2 + r.below(2);
            }
            moves.push(obj! { kind: kind, u: u, v: v, r: rep });
            out.about_to(&J::A(moves.clone()));
            let ev = guard(|| match kind {
                0 => {
                    g.add_vertex();
                    n += 1;
                    Some(obj! { e: "vertex", snap: snap(&g.snapshot()) })
                }
                1 | 2 => {
                    // The graph may hold parallel edges; the model is a simple graph.
                    if have.contains(&(u, v)) || g.snapshot().edges.contains(&(at[u], at[v])) {
                        return None;
                    }
                    have.push((u, v));
                    g.add_edge(at[u], at[v]);
                    Some(obj! { e: "edge", u: u, v: v, snap: snap(&g.snapshot()) })
                }
                _ => {
                    g.add_report(at[u], rep);
                    Some(obj! { e: "report", u: u, r: rep.to_string(), snap: snap(&g.snapshot()) })
                }
            });
            match ev {
                Ok(Some(j)) => out.event(j),
                Ok(None) => {}
                Err(p) => {
                    out.event(obj! { e: "panic", msg: p });
                    continue 'history;
                }
            }
        }
    }
    out.finish();
}
