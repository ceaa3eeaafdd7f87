//! C29: every operation ends after a bounded number of steps. The crate under test, its
//! dependencies and the generic code of the standard library are compiled with a call to a counter
//! at every edge between basic blocks; a step is one such call, so the count is the length of the
//! real execution in blocks and does not depend on the machine's load. An execution that exceeds
//! its bound is stopped there.
use checks::{for_all_types, for_ints, Fx, PlainInt};
use mc::lattice::{core, full};
use mc::{Check, Cx, MODES};
use parity_scale_codec::{Compact, Decode, Encode};
use serde::{de::DeserializeOwned, Serialize};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

// The counter of a thread: counts down, and stops the execution when it reaches zero. In assembly,
// because the compiler would count the steps of the counter, too.
std::arch::global_asm!(
    ".section .tbss.c29_left,\"awT\",@nobits",
    ".balign 8",
    "c29_left: .zero 8",
    ".text",
    ".globl __sanitizer_cov_trace_pc",
    "__sanitizer_cov_trace_pc:",
    "mov rax, qword ptr [rip + c29_left@GOTTPOFF]",
    "dec qword ptr fs:[rax]",
    "jz {exceeded}",
    "ret",
    ".globl c29_swap",
    "c29_swap:",
    "mov rdx, qword ptr [rip + c29_left@GOTTPOFF]",
    "mov rax, qword ptr fs:[rdx]",
    "mov qword ptr fs:[rdx], rdi",
    "ret",
    exceeded = sym exceeded,
);
extern "C" {
    /// Sets the counter of this thread and gives its previous value.
    fn c29_swap(n: u64) -> u64;
}
fn swap(n: u64) -> u64 {
    unsafe { c29_swap(n) }
}

struct Exceeded;

#[cold]
#[inline(never)]
extern "C-unwind" fn exceeded() {
    std::panic::resume_unwind(Box::new(Exceeded));
}

const OUTCOMES: &[&str] = &["up to 16 steps", "up to 64", "up to 256", "up to 1024", "up to 4096", "up to 16384", "more"];

/// For numbers, whatever they are.
const NUMBER: u64 = 50_000;
/// For each byte of a text, document or encoding, in addition.
const BYTE: u64 = 200;

fn run<R>(cx: &mut Cx, limit: u64, f: impl FnOnce() -> R, case: impl Fn() -> String) {
    cx.at(&case);
    swap(limit);
    let r = catch_unwind(AssertUnwindSafe(|| std::hint::black_box(f())));
    let left = swap(0);
    // panics are judged by the checks of the operations
    let over = r.is_err_and(|e| e.is::<Exceeded>());
    let used = limit.wrapping_sub(left);
    let class = [16, 64, 256, 1024, 4096, 16384].iter().position(|&b| used <= b).unwrap_or(6);
    cx.judge(if over { 6 } else { class }, !over, case, || format!("does not end within {limit} steps"));
}

macro_rules! op {
    ($cx:ident, $limit:expr, $f:expr, $($case:tt)*) => {
        run($cx, $limit, || $f, || format!($($case)*))
    };
}

fn unary<F: Io>(c: &mut Check) {
    let all = full(F::BITS, F::P);
    let exps: Vec<i32> = exponents(c.thorough);
    c.job(format!("numbers {}", F::name()), all.len() as u64, move |i, cx| {
        let a = all[i as usize];
        let (x, t) = (F::of(a), F::name());
        cx.states += 1;
        cx.traces += 1;
        op!(cx, NUMBER, x.cneg(), "{t} bits {a}: cneg");
        op!(cx, NUMBER, x.abs(), "{t} bits {a}: abs");
        op!(cx, NUMBER, x.npt(), "{t} bits {a}: next_power_of_ten");
        op!(cx, NUMBER, (x.floor(), x.ceil(), x.round()), "{t} bits {a}: floor, ceil, round");
        op!(cx, NUMBER, Into::<f64>::into(x), "{t} bits {a}: to f64");
        for m in MODES {
            op!(cx, NUMBER, x.recip(m), "{t} bits {a}: recip {m:?}");
            op!(cx, NUMBER, x.rsqrt(m), "{t} bits {a}: rsqrt {m:?}");
            op!(cx, NUMBER, x.integral(m), "{t} bits {a}: integral {m:?}");
        }
        for &e in &exps {
            op!(cx, NUMBER, F::from_decimal(a, e), "{t}: from_decimal({a}, {e})");
            if e >= -(F::P as i32) {
                op!(cx, NUMBER, x.to_decimal(e), "{t} bits {a}: to_decimal({e})");
            }
        }
        op!(cx, NUMBER, x.to_string(), "{t} bits {a}: Display");
        op!(cx, NUMBER, format!("{x:?}"), "{t} bits {a}: Debug");
        let s = x.to_string();
        op!(cx, NUMBER, F::parse(&s), "{t}: parse {s:?}");
        op!(cx, NUMBER, F::parse_exact(&s), "{t}: parse exactly {s:?}");
        op!(cx, NUMBER, (F::try_from(a).is_ok(), F::try_from(a as u128).is_ok(), F::try_from(a as i64).is_ok(), F::try_from(a as u64).is_ok()), "{t} from {a} and truncations");
        x.io(cx, a);
        cx.sample(|| format!("{t} bits {a}: every operation within {NUMBER} steps"));
    });
}

fn exponents(thorough: bool) -> Vec<i32> {
    let mut e: Vec<i32> = (-40..=12).step_by(if thorough { 1 } else { 4 }).collect();
    for x in [63, 64, 127, 128, 255, 256, 1000, 65535, 1 << 20, i32::MAX - 40, i32::MAX - 1, i32::MAX] {
        e.extend([x, -x, x + (x < i32::MAX) as i32]);
    }
    e.extend([0, -1, 10, 11, i32::MIN, i32::MIN + 1, i32::MIN + 38]);
    e.sort();
    e.dedup();
    e
}

fn binary<F: Fx>(c: &mut Check) {
    let rows = if c.thorough { full(F::BITS, F::P) } else { core(F::BITS, F::P) };
    let cols = Arc::new(core(F::BITS, F::P));
    c.job(format!("pairs {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        let (x, t) = (F::of(a), F::name());
        for &b in cols.iter() {
            let y = F::of(b);
            cx.states += 1;
            op!(cx, NUMBER, (x.cadd(y), x.csub(y), x.cmul_int(b), F::int_cmul(a, y)), "{t} bits {a}, {b}: cadd, csub, cmul");
            op!(cx, NUMBER, (x.sadd(y), x.ssub(y), x.smul_int(b), F::int_smul(a, y)), "{t} bits {a}, {b}: saturating");
            op!(cx, NUMBER, (x.cmp(&y), x == y), "{t} bits {a}, {b}: comparison");
            op!(cx, NUMBER, x.rtz_by(y), "{t} bits {a}, {b}: round_towards_zero_by");
            for m in MODES {
                op!(cx, NUMBER, x.rmul(y, m), "{t} bits {a}, {b}: rmul {m:?}");
                op!(cx, NUMBER, x.srmul(y, m), "{t} bits {a}, {b}: saturating_rmul {m:?}");
                op!(cx, NUMBER, x.rdiv(y, m), "{t} bits {a}, {b}: rdiv {m:?}");
                op!(cx, NUMBER, x.rdiv_int(b, m), "{t} bits {a}, {b}: rdiv by the integer {m:?}");
                op!(cx, NUMBER, F::int_rdiv(a, y, m), "{t} bits {a}, {b}: rdiv of the integer {m:?}");
                op!(cx, NUMBER, x.half_sum(y, m), "{t} bits {a}, {b}: half_sum {m:?}");
            }
        }
    });
}

fn ints<I: PlainInt>(c: &mut Check) {
    let rows = full(I::BITS, 0);
    let cols = Arc::new(core(I::BITS, 0));
    c.job(format!("integers {}", I::NAME), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        let x = I::of(a);
        for &b in cols.iter() {
            let (y, t) = (I::of(b), I::NAME);
            cx.states += 1;
            op!(cx, NUMBER, (I::cadd(x, y), I::csub(x, y), I::cmul(x, y)), "{t} {a}, {b}: cadd, csub, cmul");
            op!(cx, NUMBER, (I::sadd(x, y), I::ssub(x, y), I::smul(x, y)), "{t} {a}, {b}: saturating");
            for m in MODES {
                op!(cx, NUMBER, I::rdiv(x, y, m), "{t} {a}, {b}: rdiv {m:?}");
            }
        }
    });
}

fn floats<F: Fx>(c: &mut Check) {
    let mantissas: Vec<u64> = [0u64, 1, 1 << 51, (1 << 52) - 1, 0x5555_5555_5555_5, 0x9E37_79B9_7F4A_7, (1 << 51) + 1, 1 << 20].to_vec();
    c.job(format!("floats {}", F::name()), 2048, move |e, cx| {
        let t = F::name();
        for &m in &mantissas {
            for s in [0, 1 << 63] {
                let f = f64::from_bits(s | e << 52 | m);
                cx.states += 1;
                op!(cx, NUMBER, F::try_from(f).is_ok(), "{t} from {f:e}");
            }
        }
    });
}

/// Long and short texts.
fn texts(thorough: bool) -> Vec<(String, String)> {
    let mut v = vec![];
    let parts = ["", "0", "1", "5", "9", "-", "+", ".", " ", "\u{2003}", "e", "_", "12345", "\0", "ß", ".0", "0."];
    for n in if thorough { vec![1usize, 2, 40, 300, 4096, 1 << 16, 1 << 18] } else { vec![1, 40, 4096, 1 << 16] } {
        for a in parts {
            for (b, c) in [("", ""), ("1", ""), ("1.", ""), ("-0.", "1"), ("", ".5"), ("", "1.5"), ("-1", ".25"), ("0.", "x"), (" ", " "), ("1.5", ""), ("99999999999999999999999999999999999999999.", "")] {
                v.push((format!("{b:?} + {n} x {a:?} + {c:?}"), format!("{b}{}{c}", a.repeat(n))));
            }
        }
    }
    v
}

fn reading<F: Io>(c: &mut Check, all: &Arc<Vec<(String, String)>>) {
    let all = all.clone();
    c.job(format!("texts {}", F::name()), all.len() as u64, move |i, cx| {
        let (what, s) = &all[i as usize];
        let t = F::name();
        cx.states += 1;
        cx.traces += 1;
        let limit = NUMBER + BYTE * s.len() as u64;
        op!(cx, limit, F::parse(s), "{t}: parse {what}");
        op!(cx, limit, F::parse_exact(s), "{t}: parse exactly {what}");
        let json = serde_json::to_string(s).unwrap();
        op!(cx, NUMBER + BYTE * json.len() as u64, serde_json::from_str::<F>(&json).is_ok(), "{t}: from JSON, a string of {what}");
        op!(cx, limit, serde_json::from_str::<F>(s).is_ok(), "{t}: from JSON {what}");
        F::bytes(cx, s.as_bytes(), what);
    });
}

trait Io: Fx + Serialize + DeserializeOwned + Encode + Decode {
    fn io(self, cx: &mut Cx, a: i128);
    fn bytes(cx: &mut Cx, b: &[u8], what: &str);
}
macro_rules! io {
    ($($t:ident)*) => { $(
        impl<P> Io for fixnum::FixedPoint<$t, P>
        where
            P: fixnum::Precision + Send + Sync + 'static + Default + PartialEq + Eq + PartialOrd + Ord + std::hash::Hash,
        {
            fn io(self, cx: &mut Cx, a: i128) {
                let t = Self::name();
                op!(cx, NUMBER, serde_json::to_string(&self).unwrap(), "{t} bits {a}: to JSON");
                op!(cx, NUMBER, bincode::serialize(&self).unwrap(), "{t} bits {a}: to bytes");
                op!(cx, NUMBER, (self.encode(), Compact(self).encode()), "{t} bits {a}: SCALE");
                for text in [serde_json::to_string(&self).unwrap(), format!("{a}"), format!("{:e}", a as f64)] {
                    op!(cx, NUMBER, serde_json::from_str::<Self>(&text).is_ok(), "{t}: from JSON {text}");
                }
                let (b, e, k) = (bincode::serialize(&self).unwrap(), self.encode(), Compact(self).encode());
                op!(cx, NUMBER, bincode::deserialize::<Self>(&b).is_ok(), "{t}: from bytes {b:x?}");
                op!(cx, NUMBER, Self::decode(&mut &e[..]).is_ok(), "{t}: from SCALE {e:x?}");
                op!(cx, NUMBER, Compact::<Self>::decode(&mut &k[..]).is_ok(), "{t}: from compact SCALE {k:x?}");
            }
            fn bytes(cx: &mut Cx, b: &[u8], what: &str) {
                let t = Self::name();
                op!(cx, NUMBER + BYTE * b.len() as u64, bincode::deserialize::<Self>(b).is_ok(), "{t}: from the bytes of {what}");
                op!(cx, NUMBER + BYTE * b.len() as u64, Self::decode(&mut &b[..]).is_ok(), "{t}: SCALE from the bytes of {what}");
                op!(cx, NUMBER + BYTE * b.len() as u64, Compact::<Self>::decode(&mut &b[..]).is_ok(), "{t}: compact SCALE from the bytes of {what}");
            }
        }
    )* };
}
io!(i16 i32 i64 i128);

fn main() {
    let mut c = Check::new("C29", OUTCOMES);
    c.rule(
        "states are operands (numbers, pairs, mantissa and exponent, floats, texts, documents, byte strings); a transition is one operation of the real crate, \
         compiled with a counter at every edge between basic blocks, judged by the number of blocks executed until it ends: at most a constant for numbers, \
         plus a constant per byte of input. The execution is stopped as soon as it exceeds that.",
    );
    c.bound(format!("{NUMBER} blocks for numbers, {BYTE} more per byte of input; texts of up to 2^16 (thorough 2^18) repetitions; 73 types"));
    // the counter must be there
    swap(1 << 40);
    let mut n = 0;
    while n < std::hint::black_box(1000) {
        n = std::hint::black_box(n + 1);
    }
    if swap(0) > (1 << 40) - 1000 {
        mc::run::die("the counter is not compiled in");
    }
    let all = Arc::new(texts(c.thorough));
    for_all_types!(unary(&mut c));
    for_all_types!(binary(&mut c));
    for_ints!(ints(&mut c));
    for_all_types!(floats(&mut c));
    for_all_types!(reading(&mut c, &all));
    c.run()
}
