//! Snapshots as JSON.

use crate::json::J;
use crate::obj;
use crate::hooks::{Limits, Snapshot};
#[cfg(not(vp_public))]
use crate::hooks::{ReportsSnapshot, SmallWriteSnapshot, TrieSnapshot};
#[cfg(not(vp_public))]
use crate::arr;

#[cfg(not(vp_public))]
pub fn trie(t: &TrieSnapshot) -> J {
    let terms: Vec<J> = t
        .paths
        .iter()
        .filter(|p| !p.1.is_empty())
        .map(|p| arr![p.0.clone(), p.1.clone()])
        .collect();
    let mut distinct: Vec<&Vec<u8>> = t.paths.iter().map(|p| &p.0).collect();
    distinct.dedup();
    obj! {
        nodes: t.nodes,
        distinct: distinct.len(),
        paths: t.paths.len(),
        terms: J::A(terms),
        root: t.root_reports.clone(),
        empty: t.is_empty,
        all: t.all_reports.clone(),
    }
}

#[cfg(not(vp_public))]
pub fn small_write(s: &SmallWriteSnapshot) -> J {
    obj! {
        poison: s.poisoned,
        num: s.num_literals,
        c: trie(&s.cased),
        n: trie(&s.nocase),
    }
}

#[cfg(not(vp_public))]
pub fn reports(r: &ReportsSnapshot) -> J {
    J::O(report_fields(r))
}

#[cfg(not(vp_public))]
fn report_fields(r: &ReportsSnapshot) -> Vec<(&'static str, J)> {
    let ext: Vec<J> = r.ext.iter().map(|e| arr![e.0.to_string(), e.1, e.2]).collect();
    let ek: Vec<J> = r.ekeys.iter().map(|e| arr![e.0.to_string(), e.1]).collect();
    let reps: Vec<J> = r
        .reports
        .iter()
        .map(|x| {
            let key = x.3.map_or("-1".to_string(), |k| k.to_string());
            arr![x.0, x.1.to_string(), x.2.to_string(), key, x.4, x.5.to_string(), x.6.to_string()]
        })
        .collect();
    vec![
        ("reps", J::A(reps)),
        ("nrep", J::from(r.num_reports)),
        ("inv", J::from(r.inverse)),
        ("ext", J::A(ext)),
        ("ek", J::A(ek)),
        ("gex", J::from(r.global_exhaust)),
    ]
}

#[cfg(not(vp_public))]
fn handed(h: &(usize, Option<crate::hooks::Handed>)) -> J {
    let last = h.1.clone().unwrap_or_default();
    obj! {
        n: h.0,
        lit: J::A(last.lit.iter().map(|x| arr![x.0, x.1]).collect()),
        reps: last.reports,
        anch: last.anchored,
        eod: last.eod,
    }
}

#[cfg(not(vp_public))]
pub fn state(s: &Snapshot) -> J {
    let mut v = vec![
        ("has", J::from(true)),
        ("minw", J::I(s.min_width.map_or(-1, i64::from))),
        ("sw", small_write(&s.small_write)),
        ("str", J::from(s.streaming)),
        ("vec", J::from(s.vectored)),
        ("som", J::from(s.has_som)),
        ("handed", handed(&s.handed)),
    ];
    v.extend(report_fields(&s.reports));
    J::O(v)
}

#[cfg(vp_public)]
pub fn state(_: &Snapshot) -> J {
    nothing()
}

pub fn nothing() -> J {
    obj! { has: false }
}

pub fn limits(l: &Limits) -> J {
    obj! {
        al: l.allow_literal,
        sl: l.shortcut_literals,
        sw: l.allow_small_write,
        lb: l.small_write_largest_buffer,
        mp: l.small_write_max_patterns,
        ml: l.small_write_max_literals,
        pc: l.limit_pattern_count,
        pl: l.limit_pattern_length,
        rc: l.limit_report_count,
    }
}
