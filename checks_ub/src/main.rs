//! One deterministic program over the whole safe interface of the crate under test. It executes a
//! range of items of one job and prints a digest of everything observable per item, so that runs
//! of the same range by the interpreter (which stops at undefined behaviour), on the machine and
//! for other targets can be compared.
//!
//! ub list TIER                 the jobs and their numbers of items
//! ub run JOB FROM TO TIER      `R item digest` per item, `END` after the last
//! ub show JOB ITEM TIER        what the item executes, and every result

use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier};

pub struct Out {
    h: u64,
    verbose: bool,
}

impl Out {
    fn word(&mut self, w: u64) {
        self.h = (self.h ^ w).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
        if self.verbose {
            print!(" {w:x}");
        }
    }
    /// Executes one operation; a panic is one of its possible results.
    fn op(&mut self, name: &str, f: impl FnOnce(&mut Out)) {
        if self.verbose {
            print!("\n  {name}:");
        }
        if catch_unwind(AssertUnwindSafe(|| f(self))).is_err() {
            self.word(0xdead_dead);
        }
    }
    fn head(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            print!("{}", f());
        }
    }
    fn put(&mut self, x: impl Fold) {
        x.fold(self)
    }
}

pub trait Fold {
    fn fold(self, o: &mut Out);
}
macro_rules! fold_int {
    ($($t:ident)*) => { $(impl Fold for $t { fn fold(self, o: &mut Out) { o.word(self as u64) } })* };
}
fold_int!(bool u8 i8 u16 i16 u32 i32 u64 i64);
impl Fold for i128 {
    fn fold(self, o: &mut Out) {
        o.word(self as u64);
        o.word((self >> 64) as u64);
    }
}
impl Fold for f64 {
    fn fold(self, o: &mut Out) {
        o.word(self.to_bits())
    }
}
impl Fold for &[u8] {
    fn fold(self, o: &mut Out) {
        o.word(self.len() as u64);
        for c in self.chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            o.word(u64::from_le_bytes(w));
        }
    }
}
impl Fold for String {
    fn fold(self, o: &mut Out) {
        self.as_bytes().fold(o)
    }
}
impl Fold for Vec<u8> {
    fn fold(self, o: &mut Out) {
        self[..].fold(o)
    }
}
impl<T: Fold, E> Fold for Result<T, E> {
    fn fold(self, o: &mut Out) {
        match self {
            Ok(x) => {
                o.word(1);
                x.fold(o)
            }
            Err(_) => o.word(0),
        }
    }
}
impl<T: Fold> Fold for Option<T> {
    fn fold(self, o: &mut Out) {
        self.ok_or(()).fold(o)
    }
}
impl<A: Fold, B: Fold> Fold for (A, B) {
    fn fold(self, o: &mut Out) {
        self.0.fold(o);
        self.1.fold(o)
    }
}

/// Boundary values of a storage width.
fn alphabet(bits: u32, rich: u32) -> Vec<i128> {
    let max = i128::MAX >> (128 - bits);
    let min = !max;
    let mut v = vec![0, 1, -1, max, min, max - 1, min + 1];
    let mut near = |x: i128| {
        if x <= max && x > 0 {
            v.extend([x, -x, x - 1, 1 - x]);
            if rich == 2 {
                v.extend([x.saturating_add(1).min(max), -x - 1]);
            }
        }
    };
    match rich {
        // every digit count, every limb
        2 => {
            let mut p = 1i128;
            for _ in 0..39 {
                near(p);
                near(p.saturating_mul(5));
                p = p.saturating_mul(10);
            }
            for k in (0..bits - 1).step_by(if bits > 32 { 8 } else { 1 }) {
                near(1 << k);
            }
        }
        1 => {
            let mut p = 1i128;
            for _ in 0..39 {
                near(p);
                p = p.saturating_mul(10);
            }
            for k in [31, 32, 62, 63, 64, 65, 95, 96, 126] {
                if k < bits - 1 {
                    near(1 << k);
                }
            }
        }
        _ => {
            for x in [100, 1_000_000, 1_000_000_000_000_000_000, u64::MAX as i128, 1 << 95, 3 << (bits - 4)] {
                if x <= max {
                    v.extend([x, -x]);
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

const LETTERS: [&str; 9] = ["-", "+", ".", "0", "5", "9", " ", "é", "1e"];
/// All texts over the letters, in order of length.
fn text(mut n: u64) -> String {
    let mut len = 0;
    let mut count = 1;
    while n >= count {
        n -= count;
        count *= LETTERS.len() as u64;
        len += 1;
    }
    let mut s = vec![];
    for _ in 0..len {
        s.push(LETTERS[(n % LETTERS.len() as u64) as usize]);
        n /= LETTERS.len() as u64;
    }
    s.concat()
}
fn texts(max_len: u32) -> u64 {
    (0..=max_len).map(|l| (LETTERS.len() as u64).pow(l)).sum()
}

/// A first byte of every class, and a filler; the lengths follow each other.
const FIRST: [u8; 16] = [0, 1, 2, 3, 0x0b, 0x0f, 0x10, 0x13, 0x17, 0x33, 0x40, 0x7e, 0x7f, 0x80, 0xfe, 0xff];
fn bytes(mut n: u64, quick: bool) -> Vec<u8> {
    let (firsts, fills) = if quick { (16, 2) } else { (256, 4) };
    let first = if quick { FIRST[(n % 16) as usize] } else { n as u8 };
    n /= firsts;
    let fill = [0, 0xff, 0x80, 0x01][(n % fills) as usize];
    n /= fills;
    let mut v = vec![fill; n as usize + 1];
    v[0] = first;
    v
}

struct Ty {
    name: &'static str,
    bits: u32,
    value: fn(i128, &mut Out),
    print: fn(i128, &mut Out),
    pair: fn(i128, i128, &mut Out),
    root: fn(i128, &mut Out),
    text: fn(&str, &mut Out),
    bytes: fn(&[u8], &mut Out),
    float: fn(f64, &mut Out),
    solo: fn(usize, i128, i128) -> u64,
    consts: fn(&mut Out),
}

/// Operations that are run at the same time on several threads.
const SOLOS: usize = 10;

macro_rules! ty {
    ($m:ident $krate:ident $t:ident $p:ident $n:literal $lit:literal $full:ident) => {
        mod $m {
            use super::{Fold, Out, Ty};
            use std::convert::TryFrom;
            use $krate::ops::{Bounded, CheckedAdd, CheckedMul, CheckedSub, One, RoundMode, RoundingDiv, RoundingMul, Zero};
            use $krate::{typenum::$p, FixedPoint};
            pub type F = FixedPoint<$t, $p>;
            const MODES: [RoundMode; 3] = [RoundMode::Floor, RoundMode::Nearest, RoundMode::Ceil];

            impl Fold for F {
                fn fold(self, o: &mut Out) {
                    self.into_bits().fold(o)
                }
            }

            pub fn print(v: i128, o: &mut Out) {
                let x = F::from_bits(v as $t);
                let mut s = String::new();
                o.op("print", |o| {
                    s = format!("{x}");
                    o.put(s.clone())
                });
                o.op("parse", |o| o.put(s.parse::<F>()));
                o.op("parse exactly", |o| o.put(F::from_str_exact(&s)));
            }

            pub fn value(v: i128, o: &mut Out) {
                let x = F::from_bits(v as $t);
                o.head(|| format!("{} of {v}", stringify!($t, $p)));
                print(v, o);
                o.op("debug", |o| o.put(format!("{x:?}")));
                o.op("cneg", |o| o.put(x.cneg()));
                o.op("abs", |o| o.put(x.abs()));
                o.op("signum", |o| o.put(x.signum()));
                o.op("floor", |o| o.put(x.floor()));
                o.op("ceil", |o| o.put(x.ceil()));
                o.op("round", |o| o.put(x.round()));
                o.op("next_power_of_ten", |o| o.put(x.next_power_of_ten()));
                for m in MODES {
                    o.op("integral", |o| o.put(x.integral(m)));
                    o.op("recip", |o| o.put(x.recip(m)));
                }
                o.op("to f64", |o| o.put(f64::from(x)));
                for e in [i32::MIN, -(x.into_bits() as i32 & 7), 0, 3, i32::MAX] {
                    o.op("to_decimal", |o| o.put(x.to_decimal(e)));
                    o.op("from_decimal", |o| o.put(F::from_decimal(x.into_bits(), e)));
                }
                o.op("integers", |o| {
                    o.put(F::try_from(v as i8));
                    o.put(F::try_from(v as u8));
                    o.put(F::try_from(v as i16));
                    o.put(F::try_from(v as u16));
                    o.put(F::try_from(v as i32));
                    o.put(F::try_from(v as u32));
                    o.put(F::try_from(v as i64));
                    o.put(F::try_from(v as u64));
                    o.put(F::try_from(v));
                    o.put(F::try_from(v as u128));
                    // the same number on every target
                    o.put(F::try_from(v as i32 as isize));
                    o.put(F::try_from(v as u32 as usize));
                });
                ty!(@integrations $full x o);
            }

            pub fn pair(a: i128, b: i128, o: &mut Out) {
                let (x, y) = (F::from_bits(a as $t), F::from_bits(b as $t));
                let k = b as $t;
                o.head(|| format!("{} of {a} and {b}", stringify!($t, $p)));
                o.op("order", |o| {
                    o.put(x == y);
                    o.put(x.cmp(&y) as i8)
                });
                o.op("cadd", |o| o.put(x.cadd(y)));
                o.op("csub", |o| o.put(x.csub(y)));
                o.op("cmul", |o| o.put(x.cmul(k)));
                o.op("integer cmul", |o| o.put(k.cmul(x)));
                o.op("saturating", |o| {
                    o.put(x.saturating_add(y));
                    o.put(x.saturating_sub(y));
                    o.put(CheckedMul::<$t>::saturating_mul(x, k));
                });
                o.op("steps", |o| o.put(x.round_towards_zero_by(y)));
                for m in MODES {
                    o.op("rmul", |o| o.put(x.rmul(y, m)));
                    o.op("saturating_rmul", |o| o.put(x.saturating_rmul(y, m)));
                    o.op("rdiv", |o| o.put(x.rdiv(y, m)));
                    o.op("rdiv by integer", |o| o.put(x.rdiv(k, m)));
                    o.op("integer rdiv", |o| o.put(RoundingDiv::<F>::rdiv(k, y, m)));
                    o.op("integer by integer", |o| o.put(RoundingDiv::<$t>::rdiv(a as $t, k, m)));
                    o.op("half_sum", |o| o.put(F::half_sum(x, y, m)));
                }
            }

            pub fn root(v: i128, o: &mut Out) {
                let x = F::from_bits(v as $t);
                o.head(|| format!("{} of {v}", stringify!($t, $p)));
                for m in MODES {
                    o.op("rsqrt", |o| o.put(x.rsqrt(m)));
                }
            }

            pub fn text(s: &str, o: &mut Out) {
                o.head(|| format!("{} of {s:?}", stringify!($t, $p)));
                o.op("parse", |o| o.put(s.parse::<F>()));
                o.op("parse exactly", |o| o.put(F::from_str_exact(s)));
                ty!(@json $full s o);
            }

            pub fn float(f: f64, o: &mut Out) {
                o.head(|| format!("{} of {f:e}", stringify!($t, $p)));
                o.op("from f64", |o| {
                    let x = F::try_from(f);
                    o.put(x.is_ok());
                    if let Ok(x) = x {
                        o.put(x);
                        o.put(f64::from(x));
                    }
                });
            }

            #[allow(unused_variables)]
            pub fn bytes(b: &[u8], o: &mut Out) {
                o.head(|| format!("{} of {b:?}", stringify!($t, $p)));
                ty!(@bytes $full b o);
            }

            pub fn solo(n: usize, a: i128, b: i128) -> u64 {
                let (x, y) = (F::from_bits(a as $t), F::from_bits(b as $t));
                let mut out = Out { h: 1, verbose: false };
                let o = &mut out;
                match n {
                    0 => o.op("", |o| o.put(format!("{x}"))),
                    1 => o.op("", |o| o.put("-12.5 ".parse::<F>())),
                    2 => o.op("", |o| o.put(x.rmul(y, RoundMode::Nearest))),
                    3 => o.op("", |o| o.put(x.rdiv(y, RoundMode::Nearest))),
                    4 => o.op("", |o| o.put(x.rsqrt(RoundMode::Floor))),
                    5 => o.op("", |o| o.put(f64::from(x))),
                    6 => o.op("", |o| o.put(F::try_from(-1.25))),
                    7 => o.op("", |o| o.put(F::from_decimal(a as $t, -1))),
                    8 => o.op("", |o| o.put(x.next_power_of_ten())),
                    _ => o.op("", |o| {
                        o.put(F::half_sum(x, y, RoundMode::Ceil).round());
                        o.put(x.saturating_rmul(y, RoundMode::Ceil));
                        o.put(x.cadd(y));
                    }),
                }
                out.h
            }

            pub fn consts(o: &mut Out) {
                const L: F = $krate::fixnum_const!($lit, $n);
                const N: F = $krate::fixnum_const!(-$lit, $n);
                const P: i32 = F::PRECISION;
                o.head(|| format!("constants of {}", stringify!($t, $p)));
                o.op("constants", |o| {
                    for x in [F::ZERO, F::ONE, F::MIN, F::MAX, F::EPSILON, F::default(), L, N] {
                        o.put(x);
                    }
                    o.put(P);
                });
            }

            pub const TY: Ty = Ty { name: stringify!($m), bits: <$t>::BITS, value, print, pair, root, text, bytes, float, solo, consts };
        }
    };
    (@integrations full $x:ident $o:ident) => {
        use parity_scale_codec::{Compact, Decode, Encode};
        let x = $x;
        $o.op("SCALE", |o| {
            let e = x.encode();
            o.put(F::decode(&mut &e[..]));
            o.put((e.len() as u64, x.encoded_size() as u64));
            o.put(e);
        });
        $o.op("compact SCALE", |o| {
            let e = Compact(x).encode();
            o.put(<Compact<F>>::decode(&mut &e[..]).map(|c| c.0));
            o.put(e);
        });
        $o.op("SCALE in a list", |o| {
            let e = (1u8, vec![x, F::MAX, x], Some(x)).encode();
            o.put(<(u8, Vec<F>, Option<F>)>::decode(&mut &e[..]).is_ok());
            o.put(e);
        });
        $o.op("JSON", |o| {
            let s = serde_json::to_string(&x).unwrap();
            o.put(serde_json::from_str::<F>(&s));
            o.put(s);
        });
        $o.op("bincode", |o| {
            let b = bincode::serialize(&(x, x)).unwrap();
            o.put(bincode::deserialize::<(F, F)>(&b));
            o.put(b);
        });
        $o.op("adapters", |o| {
            #[derive(serde::Serialize, serde::Deserialize)]
            struct All {
                #[serde(with = "fixnum::serde::str")]
                a: F,
                #[serde(with = "fixnum::serde::repr")]
                b: F,
                #[serde(with = "fixnum::serde::str_option")]
                c: Option<F>,
                #[serde(with = "fixnum::serde::repr_option")]
                d: Option<F>,
                #[serde(with = "fixnum::serde::float")]
                e: F,
                #[serde(with = "fixnum::serde::float_option")]
                f: Option<F>,
            }
            impl Fold for All {
                fn fold(self, o: &mut Out) {
                    ((self.a, self.b), ((self.c, self.d), (self.e, self.f))).fold(o)
                }
            }
            let all = All { a: x, b: x, c: Some(x), d: Some(x), e: x, f: Some(x) };
            let s = serde_json::to_string(&all).unwrap();
            o.put(serde_json::from_str::<All>(&s));
            o.put(s);
            let b = bincode::serialize(&all).unwrap();
            o.put(bincode::deserialize::<All>(&b));
            o.put(b);
        });
    };
    (@integrations bare $x:ident $o:ident) => {};
    (@json full $s:ident $o:ident) => {
        $o.op("JSON number", |o| o.put(serde_json::from_str::<F>($s)));
        $o.op("JSON text", |o| o.put(serde_json::from_str::<F>(&format!("\"{}\"", $s))));
    };
    (@json bare $s:ident $o:ident) => {};
    (@bytes full $b:ident $o:ident) => {
        use parity_scale_codec::{Compact, Decode};
        $o.op("SCALE", |o| o.put(F::decode(&mut &$b[..])));
        $o.op("compact SCALE", |o| o.put(<Compact<F>>::decode(&mut &$b[..]).map(|c| c.0)));
        $o.op("bincode", |o| o.put(bincode::deserialize::<F>($b)));
    };
    (@bytes bare $b:ident $o:ident) => {};
}
ty!(w16p0 fixnum i16 U0 0 7 bare);
ty!(w16p2 fixnum i16 U2 2 1.25 full);
ty!(w16p4 fixnum i16 U4 4 3.1 bare);
ty!(w32p0 fixnum i32 U0 0 7 bare);
ty!(w32p5 fixnum i32 U5 5 12.345 full);
ty!(w32p9 fixnum i32 U9 9 1.000000001 bare);
ty!(w64p0 fixnum i64 U0 0 7 bare);
ty!(w64p9 fixnum i64 U9 9 123456789.987654321 bare);
ty!(w64p18 fixnum i64 U18 18 9.000000000000000001 full);
ty!(w128p0 fixnum i128 U0 0 7 full);
ty!(w128p18 fixnum i128 U18 18 12345678901234567890.5 bare);
ty!(w128p38 fixnum i128 U38 38 1.00000000000000000000000000000000000001 full);
ty!(n16p4 fixnum_narrow i16 U4 4 3.1 bare);
ty!(n32p9 fixnum_narrow i32 U9 9 1.000000001 bare);
ty!(n64p0 fixnum_narrow i64 U0 0 7 bare);
ty!(n64p18 fixnum_narrow i64 U18 18 9.000000000000000001 bare);

static TYPES: [Ty; 16] = [
    w16p0::TY, w16p2::TY, w16p4::TY, w32p0::TY, w32p5::TY, w32p9::TY, w64p0::TY, w64p9::TY, w64p18::TY, w128p0::TY, w128p18::TY, w128p38::TY, n16p4::TY,
    n32p9::TY, n64p0::TY, n64p18::TY,
];
/// Types without and with fraction, of every width and in both builds.
const SOME: [usize; 6] = [1, 5, 8, 10, 11, 14];

const BRIEF: [usize; 6] = [1, 4, 8, 9, 11, 15];

mod wrappers {
    use super::{Fold, Out};
    use fixnum::ops::{CheckedAdd, CheckedMul, CheckedSub, RoundMode, RoundingDiv, RoundingMul};
    use fixnum::{impl_op, typenum::U4, FixedPoint};
    type F = FixedPoint<i64, U4>;
    #[derive(Clone, Copy)]
    struct Size(i16);
    #[derive(Clone, Copy)]
    struct Price(F);
    #[derive(Clone, Copy)]
    struct Ratio(F);
    impl From<i16> for Size {
        fn from(x: i16) -> Self {
            Size(x)
        }
    }
    impl From<F> for Price {
        fn from(x: F) -> Self {
            Price(x)
        }
    }
    impl From<F> for Ratio {
        fn from(x: F) -> Self {
            Ratio(x)
        }
    }
    impl_op!(Size [cadd] Size = Size);
    impl_op!(Size [csub] Size = Size);
    impl_op!(Size [cmul] Price = Price);
    impl_op!(Price [cadd] Price = Price);
    impl_op!(Price [csub] Price = Price);
    impl_op!(Price [rmul] Ratio = Price);
    impl_op!(Price [rdiv] Price = Ratio);
    impl Fold for Price {
        fn fold(self, o: &mut Out) {
            self.0.into_bits().fold(o)
        }
    }
    impl Fold for Ratio {
        fn fold(self, o: &mut Out) {
            self.0.into_bits().fold(o)
        }
    }
    impl Fold for Size {
        fn fold(self, o: &mut Out) {
            self.0.fold(o)
        }
    }
    pub fn all(a: i128, b: i128, o: &mut Out) {
        let (n, k) = (Size(a as i16), Size(b as i16));
        let (p, q) = (Price(F::from_bits(a as i64)), Price(F::from_bits(b as i64)));
        o.head(|| format!("wrappers of {a} and {b}"));
        o.op("wrapper cadd, csub", |o| {
            o.put(n.cadd(k));
            o.put(n.csub(k));
            o.put(p.cadd(q));
            o.put(p.csub(q));
        });
        o.op("wrapper cmul", |o| o.put(n.cmul(p)));
        for m in [RoundMode::Floor, RoundMode::Nearest, RoundMode::Ceil] {
            o.op("wrapper rmul", |o| o.put(p.rmul(Ratio(q.0), m)));
            o.op("wrapper rdiv", |o| o.put(p.rdiv(q, m)));
        }
    }
}

fn floats(quick: bool) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, f64::from_bits(1), f64::MAX, f64::MIN, 0.1, 0.5, 1.5, -2.5, 0.1 + 0.2];
    let step = if quick { 17 } else { 1 };
    for e in (-140i32..=140).step_by(step) {
        let p = f64::from_bits(((1023 + e) as u64) << 52);
        for x in [p, f64::from_bits(p.to_bits() - 1), f64::from_bits(p.to_bits() + 1), f64::from_bits(p.to_bits() | 0x000a_aaaa_aaaa_aaaa)] {
            v.extend([x, -x]);
        }
    }
    for k in (0..40).step_by(if quick { 3 } else { 1 }) {
        let p: f64 = format!("1e{}", k - 19).parse().unwrap();
        v.extend([p, -p, p * 1.5]);
    }
    v
}

type Run = Box<dyn Fn(u64, &mut Out)>;
/// Name, and what prepares the items (interpreted code is slow, so one job is prepared per run).
type Job = (String, Box<dyn FnOnce() -> (u64, Run)>);

fn jobs(tier: &'static str) -> Vec<Job> {
    let quick = tier != "thorough";
    let brief = tier == "brief";
    let mut jobs: Vec<Job> = vec![];
    let mut job = |name: String, prepare: Box<dyn FnOnce() -> (u64, Run)>| jobs.push((name, prepare));
    let unary = |v: Vec<i128>, f: fn(i128, &mut Out)| -> (u64, Run) { (v.len() as u64, Box::new(move |i, o| f(v[i as usize], o))) };
    let binary = |v: Vec<i128>, f: fn(i128, i128, &mut Out)| -> (u64, Run) {
        let l = v.len() as u64;
        (l * l, Box::new(move |i, o| f(v[(i / l) as usize], v[(i % l) as usize], o)))
    };
    job("constants".into(), Box::new(|| (TYPES.len() as u64, Box::new(|i, o| (TYPES[i as usize].consts)(o)))));
    for (n, t) in TYPES.iter().enumerate() {
        if brief && !BRIEF.contains(&n) {
            continue;
        }
        job(format!("numbers-{}", t.name), Box::new(move || unary(alphabet(t.bits, if brief { 0 } else { 1 + !quick as u32 }), t.value)));
        job(format!("pairs-{}", t.name), Box::new(move || binary(alphabet(t.bits, if quick || t.bits > 64 { 0 } else { 1 }), t.pair)));
        job(
            format!("roots-{}", t.name),
            Box::new(move || unary(alphabet(t.bits, if quick { 0 } else { 1 }).into_iter().filter(|x| *x >= -1).collect(), t.root)),
        );
        if !quick && t.bits == 16 {
            job(format!("prints-{}", t.name), Box::new(move || (65536, Box::new(move |i, o| (t.print)(i as i128 - 32768, o)))));
        }
    }
    for n in SOME {
        let t = &TYPES[n];
        job(format!("texts-{}", t.name), Box::new(move || (texts(if !quick { 4 } else if n == 5 && !brief { 3 } else { 2 }), Box::new(move |i, o| (t.text)(&text(i), o)))));
        job(
            format!("floats-{}", t.name),
            Box::new(move || {
                let f = floats(quick);
                (f.len() as u64, Box::new(move |i, o| (t.float)(f[i as usize], o)))
            }),
        );
    }
    for n in [1, 4, 8, 11] {
        let t = &TYPES[n];
        let most = t.bits as u64 / 8 + 2;
        let classes = if quick { 32 } else { 1024 };
        job(format!("bytes-{}", t.name), Box::new(move || (classes * most, Box::new(move |i, o| (t.bytes)(&bytes(i, quick), o)))));
    }
    job("wrappers".into(), Box::new(move || binary(alphabet(64, if quick { 0 } else { 1 }), wrappers::all)));
    // two operations at the same time, in every combination
    for n in [0, 4, 8, 10] {
        let t = &TYPES[n];
        let both = move |i: u64, o: &mut Out| {
            let (a, b) = (i as usize / SOLOS, i as usize % SOLOS);
            o.head(|| format!("{}: operations {a} and {b} on two threads", t.name));
            let start = Arc::new(Barrier::new(2));
            let max = i128::MAX >> (128 - t.bits);
            let run = |k: usize, x: i128, y: i128| {
                let start = start.clone();
                std::thread::spawn(move || {
                    start.wait();
                    let r = (t.solo)(k, x, y);
                    r ^ (t.solo)(k, y, x).rotate_left(1)
                })
            };
            let (x, y) = (run(a, max / 3, max / 7), run(b, max / 5, max / 11));
            o.op("both", |o| {
                o.put(x.join().unwrap_or(1));
                o.put(y.join().unwrap_or(1));
            });
        };
        job(format!("threads-{}", t.name), Box::new(move || ((SOLOS * SOLOS) as u64, Box::new(both))));
    }
    jobs
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |n: usize| args.get(n).map(|s| s.as_str()).unwrap_or("");
    let num = |n: usize| arg(n).parse::<u64>().unwrap();
    let tier = match args.last().map(|s| s.as_str()) {
        Some("brief") => "brief",
        Some("thorough") => "thorough",
        _ => "quick",
    };
    let find = |name: &str| jobs(tier).into_iter().find(|j| j.0 == name).expect("job").1().1;
    match arg(0) {
        "list" => {
            for j in jobs(tier) {
                println!("{} {}", j.0, j.1().0);
            }
        }
        "run" => {
            let job = find(arg(1));
            for i in num(2)..num(3) {
                let mut o = Out { h: 1, verbose: false };
                job(i, &mut o);
                println!("R {i} {:x}", o.h);
            }
            println!("END");
        }
        "show" => {
            let job = find(arg(1));
            let mut o = Out { h: 1, verbose: true };
            job(num(2), &mut o);
            println!("\nEND");
        }
        _ => std::process::exit(9),
    }
}
