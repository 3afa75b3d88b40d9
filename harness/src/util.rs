//! Random numbers, the trace file, the journal and panic capture.

use crate::json::J;
#[cfg(not(vp_public))]
use crate::hooks::Class;
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufWriter, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// Trace being written and journal of the case under way.
pub struct Out {
    w: BufWriter<File>,
    journal: Option<File>,
    pub events: usize,
}

impl Out {
    pub fn new(path: &str, journal: Option<&str>) -> Self {
        Out {
            w: BufWriter::new(File::create(path).expect("trace file")),
            journal: journal.map(|j| File::create(j).expect("journal file")),
            events: 0,
        }
    }
    pub fn event(&mut self, j: J) {
        let mut s = j.text();
        s.push('\n');
        self.w.write_all(s.as_bytes()).expect("trace");
        self.events += 1;
    }
    /// Notes what is about to run, in case it does not come back.
    pub fn about_to(&mut self, j: &J) {
        if let Some(f) = &mut self.journal {
            let s = j.text();
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.set_len(0);
            let _ = f.write_all(s.as_bytes());
        }
    }
    pub fn finish(mut self) {
        self.w.flush().expect("trace");
        if let Some(f) = &mut self.journal {
            let _ = f.set_len(0);
        }
    }
}

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}

pub fn silence_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        LAST.with(|l| *l.borrow_mut() = m);
    }));
}

/// Runs `f`, returning its panic message if it panics.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = LAST.with(|l| l.borrow().clone());
        m.chars().take(300).collect()
    })
}

/// Members of a class, as ranges.
#[cfg(not(vp_public))]
pub fn ranges(c: &Class) -> J {
    let mut v: Vec<J> = Vec::new();
    let mut from: Option<u8> = None;
    for b in 0..=255_u8 {
        match (c.test(b), from) {
            (true, None) => from = Some(b),
            (false, Some(f)) => {
                v.push(crate::arr![f, b - 1]);
                from = None;
            }
            _ => {}
        }
    }
    if let Some(f) = from {
        v.push(crate::arr![f, 255_u8]);
    }
    J::A(v)
}

pub fn points(s: &str) -> J {
    J::A(s.chars().map(|c| J::from(c as u32)).collect())
}
