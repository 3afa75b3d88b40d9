//! Runs the real code and records what it does as traces for the TLA+ trace
//! specifications in /verif/spec.

mod cases;
mod errors;
mod gen;
mod hooks;
mod json;
mod suites;
mod util;

use std::process::exit;

pub struct Args {
    pub seed: u64,
    pub n: usize,
    pub out: String,
    pub journal: Option<String>,
    pub cases: Option<String>,
    pub key: usize,
    pub deep: bool,
}

fn main() {
    let mut it = std::env::args().skip(1);
    let suite = it.next().unwrap_or_default();
    let mut a = Args {
        seed: 1,
        n: 10,
        out: "/dev/null".to_string(),
        journal: None,
        cases: None,
        key: 0,
        deep: false,
    };
    while let Some(k) = it.next() {
        if k == "--deep" {
            a.deep = true;
            continue;
        }
        let v = it.next().unwrap_or_else(|| usage());
        match &k[..] {
            "--seed" => a.seed = v.parse().unwrap_or_else(|_| usage()),
            "--n" => a.n = v.parse().unwrap_or_else(|_| usage()),
            "--key" => a.key = v.parse().unwrap_or_else(|_| usage()),
            "--out" => a.out = v,
            "--journal" => a.journal = Some(v),
            "--cases" => a.cases = Some(v),
            _ => usage(),
        }
    }
    util::silence_panics();
    match &suite[..] {
        #[cfg(not(vp_public))]
        "class" => suites::class::run(&a),
        #[cfg(not(vp_public))]
        "parse" => suites::parse::run(&a),
        "session" => suites::session::run(&a),
        "limits" => suites::session::run_limits(&a),
        "ladder" => suites::session::run_ladder(&a),
        "deep" => suites::session::run_deep(&a),
        #[cfg(not(vp_public))]
        "reports" => suites::reports::run(&a),
        #[cfg(not(vp_public))]
        "smallwrite" => suites::smallwrite::run(&a),
        #[cfg(not(vp_public))]
        "graphs" => suites::graphs::run(&a),
        #[cfg(not(vp_public))]
        "store" => suites::store::run(&a),
        #[cfg(not(vp_public))]
        "literal" => suites::literal::run(&a),
        #[cfg(not(vp_public))]
        "arith" => suites::arith::run(&a),
        #[cfg(not(vp_public))]
        "engine" => suites::engine::run(&a),
        #[cfg(not(vp_public))]
        "graph" => suites::graph::run(&a),
        #[cfg(not(vp_public))]
        "regions" => suites::regions::run(&a),
        "isolation" => suites::isolation::run(&a),
        "reference" => suites::isolation::reference(&a),
        _ => usage(),
    }
}

fn usage() -> ! {
    eprintln!("vp SUITE [--seed S] [--n N] [--out FILE] [--journal FILE] [--cases FILE] [--key K] [--deep]");
    exit(64)
}
