//! A minimal JSON writer.

use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    B(bool),
    I(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

impl J {
    pub fn write(&self, out: &mut String) {
        match self {
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(out, "{}", i);
            }
            J::S(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        c if (c as u32) < 0x20 || (c as u32) > 0x7e => out.push('?'),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    let _ = write!(out, "\"{}\":", k);
                    x.write(out);
                }
                out.push('}');
            }
        }
    }

    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

impl From<bool> for J {
    fn from(b: bool) -> J {
        J::B(b)
    }
}
macro_rules! ints {
    ($($t:ty),*) => { $(impl From<$t> for J { fn from(i: $t) -> J { J::I(i as i64) } })* };
}
ints!(u8, u16, u32, u64, usize, i32, i64);
impl From<&str> for J {
    fn from(s: &str) -> J {
        J::S(s.to_string())
    }
}
impl From<String> for J {
    fn from(s: String) -> J {
        J::S(s)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(v: Vec<T>) -> J {
        J::A(v.into_iter().map(Into::into).collect())
    }
}
impl<T: Into<J> + Clone> From<&[T]> for J {
    fn from(v: &[T]) -> J {
        J::A(v.iter().cloned().map(Into::into).collect())
    }
}

#[macro_export]
macro_rules! obj {
    ($($k:ident : $v:expr),* $(,)?) => {
        $crate::json::J::O(vec![$((stringify!($k), $crate::json::J::from($v))),*])
    };
}
#[macro_export]
macro_rules! arr {
    ($($v:expr),* $(,)?) => {
        $crate::json::J::A(vec![$($crate::json::J::from($v)),*])
    };
}
