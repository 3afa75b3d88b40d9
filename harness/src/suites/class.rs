//! Byte classes: random histories of updates and questions.

use crate::json::J;
use crate::util::{guard, ranges, Out, Rng};
use crate::{arr, obj, Args};
use crate::hooks::{combine_fields, Class};

const EDGES: &[u8] = &[
    0, 1, 31, 32, 63, 64, 65, 90, 91, 96, 97, 122, 123, 126, 127, 128, 129, 191, 192, 193, 223, 224, 254, 255,
];

fn byte(r: &mut Rng) -> u8 {
    match r.below(4) {
        0 | 1 => *r.pick(EDGES),
        2 => *r.pick(b"AZazBbMm@[`{09\x10\x80\xbf\xc0"),
        _ => r.byte(),
    }
}

struct Driver<'a> {
    regs: [Class; 3],
    out: &'a mut Out,
    moves: Vec<J>,
}

#[derive(Clone, Default)]
struct Op {
    op: &'static str,
    d: usize,
    a: usize,
    b: usize,
    x: u8,
    y: u8,
    bs: Vec<u8>,
}

impl Driver<'_> {
    fn fresh(&mut self) {
        self.regs = [Class::empty(), Class::empty(), Class::empty()];
        self.moves.clear();
        self.out.event(obj! { e: "fresh" });
    }

    fn update(&mut self, o: &Op) {
        let j = obj! {
            op: o.op, d: o.d + 1, a: o.a + 1, b: o.b + 1, x: o.x, y: o.y, bs: o.bs.clone(),
        };
        self.moves.push(j.clone());
        self.out.about_to(&J::A(self.moves.clone()));
        let mut regs = self.regs;
        let (ra, rb) = (self.regs[o.a], self.regs[o.b]);
        let done = guard(|| {
            let d = &mut regs[o.d];
            match o.op {
                "set" => d.set(o.x),
                "reset" => d.reset(o.x),
                "flip" => d.flip(o.x),
                "setall" => d.set_all(),
                "resetall" => d.reset_all(),
                "flipall" => d.flip_all(),
                "bytes" => d.set_bytes(&o.bs),
                "range" => d.set_range(o.x, o.y),
                "and" => *d = ra.and(rb),
                "or" => *d = ra.or(rb),
                "xor" => *d = ra.xor(rb),
                "not" => *d = ra.not(),
                "copy" => *d = ra,
                // The register written to is the left operand.
                "andassign" => d.and_assign(rb),
                "orassign" => d.or_assign(rb),
                "xorassign" => d.xor_assign(rb),
                "caseless" => d.make_caseless(),
                "fromchar" => *d = Class::from_char(o.x),
                "fromrange" => *d = Class::from_range(o.x, o.y),
                "frombytes" => *d = Class::from_bytes(&o.bs),
                "dot" => *d = Class::dot(),
                "empty" => *d = Class::empty(),
                _ => unreachable!(),
            }
        });
        self.regs = regs;
        let mut v = vec![("e", J::from("update"))];
        if let J::O(f) = j {
            v.extend(f);
        }
        if let "and" | "or" | "xor" | "not" = o.op {
            // The same on the bits alone.
            if let Ok(c) = guard(|| combine_fields(o.op, &ra, &rb)) {
                v.push(("field", ranges(&c)));
            }
        }
        v.push(("panic", J::from(done.is_err())));
        v.push(("regs", J::A(self.regs.iter().map(ranges).collect())));
        self.out.event(J::O(v));
    }

    fn ask(&mut self, i: usize, dirt: u8) {
        let c = self.regs[i];
        let all = self.regs;
        self.out.about_to(&arr![J::A(self.moves.clone()), format!("ask {}", i + 1)]);
        let opt = |o: Option<u8>| J::I(o.map_or(-1, i64::from));
        let asked = guard(|| {
            let mut walk = Vec::new();
            let mut cur = c.find_first();
            while let Some(b) = cur {
                walk.push(b);
                if walk.len() > 256 {
                    break;
                }
                cur = c.find_next(b);
            }
            // Whatever was in the buffer before.
            let mut buf = [dirt; 34];
            c.fill_bitvector(&mut buf);
            let mask = c.and_cmp_mask();
            let mut mask_bits = Vec::new();
            mask_bits.push(mask.0);
            mask_bits.push(mask.1);
            let text = text_members(&c.text());
            obj! {
                e: "ask",
                d: i + 1,
                panic: false,
                members: ranges(&c),
                count: c.count(),
                none: c.none(),
                any: c.any(),
                all: c.all(),
                first: opt(c.find_first()),
                last: opt(c.find_last()),
                next: J::A((0..=255).map(|b| opt(c.find_next(b))).collect()),
                nth: J::A((0..=255).map(|b| opt(c.find_nth(b))).collect()),
                walk: walk,
                alpha: c.is_alphabetic(),
                pair: c.is_caseless_char(),
                bit5: c.is_bit5_insensitive(),
                ascii: c.is_ascii(),
                utf8: c.is_utf8_start(),
                subset: J::A(all.iter().map(|o| J::from(c.is_subset_of(o))).collect()),
                overlaps: J::A(all.iter().map(|o| J::from(c.overlaps(o))).collect()),
                equals: J::A(all.iter().map(|o| J::from(c == *o)).collect()),
                text: text,
                vec: buf[..32].to_vec(),
                tail: buf[32] == dirt && buf[33] == dirt,
                mask: mask_bits,
            }
        });
        match asked {
            Ok(j) => self.out.event(j),
            Err(m) => self.out.event(obj! { e: "ask", d: i + 1, panic: true, msg: m }),
        }
    }
}

/// The members a text lists: one character each, the character being the byte.
fn text_members(s: &str) -> J {
    J::A(s.chars().map(|c| J::from(c as u32)).collect())
}

const OPS: &[&str] = &[
    "set", "set", "reset", "flip", "setall", "resetall", "flipall", "bytes", "range", "range", "range", "and", "or",
    "xor", "not", "copy", "andassign", "orassign", "xorassign", "caseless", "caseless", "fromchar", "fromrange",
    "frombytes", "dot", "empty",
];

fn random_op(r: &mut Rng) -> Op {
    let op = *r.pick(OPS);
    let (mut x, mut y) = (byte(r), byte(r));
    if x > y && !r.one_in(12) {
        std::mem::swap(&mut x, &mut y);
    }
    let d = r.below(3);
    let a = if op.ends_with("assign") { d } else { r.below(3) };
    let n = r.below(6);
    let bs = if r.one_in(4) {
        let f = byte(r);
        vec![f, f ^ 0x20]
    } else {
        (0..n).map(|_| byte(r)).collect()
    };
    Op { op, d, a, b: r.below(3), x, y, bs }
}

/// Every range with ends on edges, every single byte, every complement of one.
fn systematic(d: &mut Driver, r: &mut Rng, share: usize, of: usize) {
    let mut k = 0;
    let mut mine = || {
        k += 1;
        k % of == share
    };
    for c in 0..=255_u8 {
        if mine() {
            d.fresh();
            d.update(&Op { op: "fromchar", x: c, ..Op::default() });
            d.update(&Op { op: "not", d: 1, a: 0, ..Op::default() });
            d.update(&Op { op: "copy", d: 2, a: 0, ..Op::default() });
            d.update(&Op { op: "caseless", d: 2, ..Op::default() });
            d.ask(0, r.byte());
            d.ask(1, r.byte());
            d.ask(2, r.byte());
        }
    }
    // Every byte into, out of and beside a class and what it is not.
    for x in 0..=255_u8 {
        if mine() {
            d.fresh();
            let n = [3, 30, 128, 300][r.below(4)];
            let bs: Vec<u8> = (0..n).map(|_| r.byte()).collect();
            d.update(&Op { op: "frombytes", bs, ..Op::default() });
            d.update(&Op { op: "not", d: 1, a: 0, ..Op::default() });
            let (one, two) = [("set", "reset"), ("reset", "set"), ("flip", "flip")][r.below(3)];
            d.update(&Op { op: one, d: 1, x, ..Op::default() });
            d.update(&Op { op: "copy", d: 2, a: 0, ..Op::default() });
            d.update(&Op { op: "flip", d: 2, x, ..Op::default() });
            d.ask(0, r.byte());
            d.ask(2, r.byte());
            d.update(&Op { op: one, x, ..Op::default() });
            d.update(&Op { op: one, x, ..Op::default() });
            d.update(&Op { op: two, x, ..Op::default() });
            d.update(&Op { op: "set", x, ..Op::default() });
            d.update(&Op { op: "flip", x, ..Op::default() });
            d.update(&Op { op: "reset", d: 1, x, ..Op::default() });
            d.ask(1, r.byte());
        }
    }
    for x in EDGES {
        for y in EDGES {
            if mine() {
                d.fresh();
                // Into something that is not empty.
                d.update(&Op { op: "bytes", bs: vec![r.byte(), r.byte()], ..Op::default() });
                d.update(&Op { op: "range", x: *x, y: *y, ..Op::default() });
                d.update(&Op { op: "fromrange", d: 1, x: *x, y: *y, ..Op::default() });
                if (*x as usize + *y as usize) % 3 == 0 {
                    d.ask(1, 0xff);
                }
            }
        }
    }
}

/// Every class of two bytes and every range, by what is so of them.
fn pairs(out: &mut Out, r: &mut Rng) {
    for x in 0..=255_u8 {
        out.about_to(&arr!["pairs", x]);
        let base: Vec<u8> = (0..r.below(40)).map(|_| r.byte()).collect();
        let got = guard(|| {
            let ys = |make: &dyn Fn(u8) -> Class, p: &dyn Fn(&Class) -> bool| {
                let mut s = Class::empty();
                (0..=255).filter(|y| p(&make(*y))).for_each(|y| s.set(y));
                ranges(&s)
            };
            let all = |make: &dyn Fn(u8) -> Class| {
                J::A(vec![
                    ys(make, &|c| c.is_alphabetic()),
                    ys(make, &|c| c.is_caseless_char()),
                    ys(make, &|c| c.is_bit5_insensitive()),
                    ys(make, &|c| c.is_ascii()),
                    ys(make, &|c| c.is_utf8_start()),
                ])
            };
            let range = |y: u8| Class::from_range(x.min(y), x.max(y));
            let added = |y: u8| {
                let mut c = Class::from_bytes(&base);
                c.set_range(x.min(y), x.max(y));
                c
            };
            obj! {
                e: "pairs",
                panic: false,
                x: x,
                base: base.clone(),
                pairs: all(&|y| Class::from_bytes(&[x, y])),
                spans: all(&range),
                ranges: J::A((0..=255).map(|y| ranges(&range(y))).collect()),
                added: J::A((0..=255).map(|y| J::from(added(y).count())).collect()),
                exact: J::A((0..=255).map(|y| {
                    let c = added(y);
                    let same = (0..=255_u8).all(|b| c.test(b) == (base.contains(&b) || x.min(y) <= b && b <= x.max(y)));
                    J::from(same)
                }).collect()),
            }
        });
        match got {
            Ok(j) => out.event(j),
            Err(m) => out.event(obj! { e: "pairs", panic: true, msg: m }),
        }
    }
}

/// Classes of every size and with any number of runs, made of byte lists.
fn sizes(d: &mut Driver, r: &mut Rng, share: usize, of: usize) {
    for k in (0..=256).filter(|k| k % of == share) {
        d.fresh();
        let mut all: Vec<u8> = (0..=255).collect();
        if k % 3 > 0 {
            for i in (1..256).rev() {
                all.swap(i, r.below(i + 1));
            }
        }
        if k % 3 == 2 {
            // Alternating.
            all = (0..=255).step_by(2).chain((1..=255).step_by(2)).collect();
            all.rotate_left(r.below(256));
        }
        let mut list = all[..k].to_vec();
        // Some twice, and in any order.
        for _ in 0..r.below(40).min(k) {
            let b = list[r.below(k)];
            let at = r.below(list.len() + 1);
            list.insert(at, b);
        }
        let more: Vec<u8> = (0..r.below(70)).map(|_| r.byte()).collect();
        d.update(&Op { op: "frombytes", bs: list.clone(), ..Op::default() });
        d.ask(0, r.byte());
        d.update(&Op { op: "frombytes", d: 1, bs: more, ..Op::default() });
        d.update(&Op { op: "copy", d: 2, a: 1, ..Op::default() });
        d.update(&Op { op: "bytes", d: 1, bs: list, ..Op::default() });
        d.ask(1, r.byte());
        let op = ["xor", "or", "and"][k / of % 3];
        d.update(&Op { op, d: 2, a: 0, b: 2, ..Op::default() });
        d.update(&Op { op: "caseless", d: 2, ..Op::default() });
        d.ask(2, r.byte());
        d.update(&Op { op: "not", d: 1, a: 2, ..Op::default() });
        d.ask(1, r.byte());
    }
}

pub fn run(a: &Args) {
    let mut out = Out::new(&a.out, a.journal.as_deref());
    let mut r = Rng::new(a.seed);
    {
        let mut d = Driver {
            regs: [Class::empty(), Class::empty(), Class::empty()],
            out: &mut out,
            moves: Vec::new(),
        };
        // --key is the shard out of 16 of the systematic part.
        if a.key < 16 {
            systematic(&mut d, &mut r, a.key, 16);
        }
        if (17..21).contains(&a.key) {
            sizes(&mut d, &mut r, a.key - 17, 4);
        }
        if a.key == 21 {
            pairs(d.out, &mut r);
        }
        for k in 0..a.n {
            d.fresh();
            let steps = if k % 50 == 49 { 300 } else { 3 + r.below(14) };
            for _ in 0..steps {
                let o = random_op(&mut r);
                d.update(&o);
                if r.one_in(3) {
                    let at = o.d;
                    d.ask(at, r.byte());
                }
            }
        }
    }
    out.finish();
}
