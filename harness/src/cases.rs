//! Cases from the specification, as lines of blank-separated fields.

use std::fs;

/// Reads lines of fields, without empty lines.
pub fn lines(path: &str) -> Vec<Vec<String>> {
    fs::read_to_string(path)
        .expect("cases")
        .lines()
        .filter(|l| !l.is_empty())
        .map(|l| l.split(' ').map(str::to_string).collect())
        .collect()
}

/// Comma-separated code points, `-` for none.
pub fn text(f: &str) -> String {
    if f == "-" {
        return String::new();
    }
    f.split(',')
        .map(|c| char::from_u32(c.parse().expect("code point")).expect("code point"))
        .collect()
}
