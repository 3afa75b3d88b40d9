//! Reads what an error says without insisting on its wording.

use crate::json::J;
use crate::util::points;
use crate::{arr, obj};
use crate::hooks::error_info;
use rescan::CompileError;

pub struct Told {
    pub kind: String,
    pub cause: &'static str,
    pub at: i64,
    pub idx: i64,
    pub didx: i64,
    pub verb: String,
    pub conflict: [String; 4],
    pub msg: String,
}

fn digits_after(s: &str, key: &str) -> Option<i64> {
    let p = s.rfind(key)? + key.len();
    let t: String = s[p..]
        .chars()
        .skip_while(|c| *c == ' ')
        .take_while(|c| c.is_ascii_digit())
        .collect();
    t.parse().ok()
}

fn number_after<'a>(s: &'a str, key: &str) -> Option<(String, &'a str)> {
    let p = s.find(key)? + key.len();
    let rest = s[p..].trim_start_matches(' ');
    let n = rest.chars().take_while(|c| c.is_ascii_digit()).count();
    Some((rest[..n].to_string(), &rest[n..]))
}

pub fn read(e: &CompileError) -> Told {
    let (kind, reason, index) = error_info(e);
    let shown = e.to_string();
    let lower = reason.to_lowercase();
    let mut verb = String::new();
    let mut conflict = [String::new(), String::new(), String::new(), String::new()];
    let cause = if lower.contains("control verb ") {
        let p = lower.find("control verb ").unwrap() + "control verb ".len();
        let q = reason.rfind(" at ").filter(|q| *q >= p).unwrap_or(reason.len());
        if let Some(v) = reason.get(p..q) {
            verb = v.to_string();
        }
        if lower.starts_with("unsupported") {
            "unsupported"
        } else {
            "unknown"
        }
    } else if lower.contains("singlematch") {
        let (head, tail) = match lower.find("whereas") {
            Some(p) => (&lower[..p], &lower[p..]),
            None => (&lower[..], ""),
        };
        if let Some((n, _)) = number_after(head, "(index") {
            conflict[0] = n;
        }
        if let Some((n, _)) = number_after(head, "match id") {
            conflict[1] = n;
        }
        if let Some((n, _)) = number_after(tail, "(index") {
            conflict[2] = n;
        }
        let later = !head.contains("not");
        let first = !tail.contains("not");
        conflict[3] = match (later, first) {
            (true, false) => "later".to_string(),
            (false, true) => "first".to_string(),
            _ => "unclear".to_string(),
        };
        "conflict"
    } else if lower.contains("missing close") || lower.contains("unclosed") {
        "unclosed"
    } else if lower.contains("unmatched") {
        "unmatched"
    } else if lower.contains("ascii") || lower.contains("hexadecimal") {
        "nonascii"
    } else if lower.contains("pattern length") {
        "length"
    } else if lower.contains("quiet") {
        "quietsom"
    } else if lower.contains("resource") {
        "reports"
    } else if lower.contains("number of patterns") {
        "count"
    } else if lower.contains("differ") {
        "lengths"
    } else if lower.contains("empty") {
        "empty"
    } else {
        "other"
    };
    let at = match cause {
        "unsupported" | "unknown" | "unclosed" | "unmatched" | "nonascii" => {
            digits_after(&lower, "index").unwrap_or(-1)
        }
        _ => -1,
    };
    // The shown text has the reason and the index of the expression.
    let tail = shown.strip_prefix(&reason[..]).unwrap_or(&shown);
    let didx = digits_after(tail, "expression").unwrap_or(-1);
    Told {
        kind,
        cause,
        at,
        idx: index.map_or(-1, i64::from),
        didx,
        verb,
        conflict,
        msg: shown,
    }
}

impl Told {
    pub fn conflict_json(&self) -> J {
        arr![
            self.conflict[0].clone(),
            self.conflict[1].clone(),
            self.conflict[2].clone(),
            self.conflict[3].clone(),
        ]
    }
    pub fn fields(&self) -> Vec<(&'static str, J)> {
        match obj! {
            kind: self.kind.clone(),
            cause: self.cause,
            at: self.at,
            idx: self.idx,
            didx: self.didx,
            verb: points(&self.verb),
            conflict: self.conflict_json(),
            msg: self.msg.clone(),
        } {
            J::O(v) => v,
            _ => unreachable!(),
        }
    }
    pub fn none(msg: &str) -> Told {
        Told {
            kind: String::new(),
            cause: "none",
            at: -1,
            idx: -1,
            didx: -1,
            verb: String::new(),
            conflict: Default::default(),
            msg: msg.to_string(),
        }
    }
}
