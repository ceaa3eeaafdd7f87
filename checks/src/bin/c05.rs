//! C05: saturating operations, on fixed types, plain integers and types using the default methods.
use checks::{calc, cols, for_all_types, for_i16_types, for_ints, spec, Fx, PlainInt};
use fixnum::ops::*;
use fixnum::ArithmeticError;
use mc::lattice::{core, full, mul_partners, Set};
use mc::model::{max_of, min_of, Wide};
use mc::{Big, Check, Cx, Exp, Mode, MODES};
use std::sync::Arc;

const OUTCOMES: &[&str] =
    &["trace step with a value", "trace step with an error", "exact", "clamped", "default method, exact", "default method, clamped"];

#[inline(always)]
fn one<F: Fx>(op: &str, a: i128, b: i128, real: impl FnOnce() -> i128, want: Exp, cx: &mut Cx) {
    cx.at(|| format!("{} {op} {a} {b}", F::name()));
    let got = real();
    let w = want.saturated(F::lo(), F::hi()).unwrap();
    cx.judge(
        2 + !matches!(want, Exp::Val(_)) as usize,
        got == w,
        || format!("{} {op} {a} {b}", F::name()),
        || format!("got {got}, model says {want:?} i.e. {w}"),
    );
}

fn linear<F: Fx>(a: i128, b: i128, cx: &mut Cx) {
    let (x, y) = (F::of(a), F::of(b));
    cx.states += 1;
    one::<F>("saturating_add", a, b, || x.sadd(y), spec::add::<F>(a, b), cx);
    one::<F>("saturating_sub", a, b, || x.ssub(y), spec::sub::<F>(a, b), cx);
    let p = spec::mul_int::<F>(a, b);
    one::<F>("saturating_mul-int", a, b, || x.smul_int(b), p, cx);
    one::<F>("int-saturating_mul", a, b, || F::int_smul(a, y), p, cx);
}

fn rounding<F: Fx>(a: i128, b: i128, cx: &mut Cx) {
    let (x, y) = (F::of(a), F::of(b));
    let (n, d) = spec::rmul_nd::<F>(a, b);
    cx.states += 1;
    for m in MODES {
        cx.at(|| format!("{} saturating_rmul {a} {b} {m:?}", F::name()));
        let got = x.srmul(y, m);
        let ok = F::Wide::judge_sat(n, d, m, F::lo(), F::hi(), got);
        cx.judge(
            2 + (got == F::hi() || got == F::lo()) as usize,
            ok,
            || format!("{} saturating_rmul {a} {b} {m:?}", F::name()),
            || format!("got {got}, model says {:?}", spec::rmul::<F>(a, b, m)),
        );
    }
}

/// Operands that put a+b, a-b and a*b right at the range limits.
fn partners(bits: u32, a: i128) -> Vec<i128> {
    let mut s = Set::new(bits);
    let a_ = Big::i(a);
    for lim in [min_of(bits), max_of(bits)] {
        let l = Big::i(lim);
        s.near_big(&l.sub(&a_), 1);
        s.near_big(&a_.sub(&l), 1);
        if a != 0 {
            let (q, _) = Big::floor_divmod(&l, &a_.abs());
            let q = if a < 0 { q.neg() } else { q };
            s.near_big(&q, 1);
        }
    }
    s.vec()
}

fn pairs<F: Fx>(chk: &mut Check) {
    let rows = full(F::BITS, F::P);
    let cols = cols::<F>(chk.thorough);
    let rcols = if chk.thorough { cols.clone() } else { cols.iter().copied().step_by(2).chain([F::lo(), F::hi()]).collect() };
    chk.job(format!("pairs {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        for &b in &cols {
            linear::<F>(a, b, cx);
            linear::<F>(b, a, cx);
        }
        for b in partners(F::BITS, a) {
            linear::<F>(a, b, cx);
            linear::<F>(b, a, cx);
        }
        for &b in &rcols {
            rounding::<F>(a, b, cx);
        }
        for b in mul_partners(F::BITS, F::P, a) {
            rounding::<F>(a, b, cx);
            rounding::<F>(b, a, cx);
        }
        cx.sample(|| format!("{}: {a} saturating_rmul MAX -> {}", F::name(), F::of(a).srmul(F::of(F::hi()), Mode::Floor)));
    });
}

fn all16<F: Fx>(chk: &mut Check) {
    let cols: Arc<Vec<i128>> = Arc::new(if chk.thorough { (F::lo()..=F::hi()).collect() } else { core(16, F::P) });
    chk.job(format!("all16 {}", F::name()), 8192, move |i, cx| {
        for k in 0..8 {
            let a = F::lo() + (i * 8 + k) as i128;
            for &b in cols.iter() {
                linear::<F>(a, b, cx);
                rounding::<F>(a, b, cx);
            }
        }
    });
}

fn int_state<I: PlainInt>(a: i128, b: i128, cx: &mut Cx) {
    cx.states += 1;
    let (min, max) = (min_of(I::BITS), max_of(I::BITS));
    let (wa, wb) = (I::Wide::of(a), I::Wide::of(b));
    for (op, real, want) in [
        ("saturating_add", I::sadd as fn(I, I) -> i128, wa.plus(wb)),
        ("saturating_sub", I::ssub, wa.minus(wb)),
        ("saturating_mul", I::smul, wa.times(wb)),
    ] {
        cx.at(|| format!("{} {op} {a} {b}", I::NAME));
        let got = real(I::of(a), I::of(b));
        let e = I::Wide::clamp_exp(want, min, max);
        let w = e.saturated(min, max).unwrap();
        cx.judge(2 + !matches!(e, Exp::Val(_)) as usize, got == w, || format!("{} {op} {a} {b}", I::NAME), || format!("got {got}, model says {e:?}"));
    }
}

fn ints<I: PlainInt>(chk: &mut Check) {
    if I::BITS <= 8 {
        chk.job("i8-all", 256, |i, cx| {
            for b in -128..128 {
                int_state::<I>(i as i128 - 128, b, cx);
            }
        });
        return;
    }
    let rows = full(I::BITS, 0);
    let cols = if chk.thorough { full(I::BITS, 0) } else { core(I::BITS, 0) };
    chk.job(format!("ints {}", I::NAME), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        for b in cols.iter().copied().chain(partners(I::BITS, a)) {
            int_state::<I>(a, b, cx);
            int_state::<I>(b, a, cx);
        }
    });
}

// ---- user types that implement only the checked operation and rely on the provided methods ----

/// Left operand, with its own (narrower) right operand and result types, so that a default method
/// which takes a bound, a zero or a sign from the wrong type is visible.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
struct L(i16);
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
struct R(i8);
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
struct Res(i16);
const RES_MIN: i128 = -100;
const RES_MAX: i128 = 90;

impl Zero for L {
    const ZERO: L = L(0);
}
impl Zero for R {
    const ZERO: R = R(0);
}
impl Zero for Res {
    const ZERO: Res = Res(0);
}
impl Bounded for L {
    const MIN: L = L(-128);
    const MAX: L = L(127);
}
impl Bounded for R {
    const MIN: R = R(-128);
    const MAX: R = R(127);
}
impl Bounded for Res {
    const MIN: Res = Res(RES_MIN as i16);
    const MAX: Res = Res(RES_MAX as i16);
}
fn res(e: Exp) -> Result<Res, ArithmeticError> {
    match e {
        Exp::Val(v) => Ok(Res(v as i16)),
        _ => Err(ArithmeticError::Overflow),
    }
}
fn lim(x: i64) -> Exp {
    i64::clamp_exp(x, RES_MIN, RES_MAX)
}
fn mode_of(m: RoundMode) -> Mode {
    match m {
        RoundMode::Floor => Mode::Floor,
        RoundMode::Nearest => Mode::Nearest,
        RoundMode::Ceil => Mode::Ceil,
    }
}
impl CheckedAdd<R> for L {
    type Output = Res;
    type Error = ArithmeticError;
    fn cadd(self, r: R) -> Result<Res, ArithmeticError> {
        res(lim(self.0 as i64 + r.0 as i64))
    }
}
impl CheckedSub<R> for L {
    type Output = Res;
    type Error = ArithmeticError;
    fn csub(self, r: R) -> Result<Res, ArithmeticError> {
        res(lim(self.0 as i64 - r.0 as i64))
    }
}
impl CheckedMul<R> for L {
    type Output = Res;
    type Error = ArithmeticError;
    fn cmul(self, r: R) -> Result<Res, ArithmeticError> {
        res(lim(self.0 as i64 * r.0 as i64))
    }
}
impl RoundingMul<R> for L {
    type Output = Res;
    type Error = ArithmeticError;
    fn rmul(self, r: R, m: RoundMode) -> Result<Res, ArithmeticError> {
        res(i64::expect(self.0 as i64 * r.0 as i64, 10, mode_of(m), RES_MIN, RES_MAX))
    }
}

fn defaults(chk: &mut Check) {
    // left operands stay in the range of the result type, so that on overflow of add/sub the sign
    // of the right operand alone tells the direction, as the provided methods assume
    chk.job("defaults", (RES_MAX - RES_MIN + 1) as u64, |i, cx| {
        let a = RES_MIN + i as i128;
        for b in -128i128..128 {
            let (l, r) = (L(a as i16), R(b as i8));
            cx.states += 1;
            let mut see = |op: &str, got: Res, e: Exp| {
                let w = e.saturated(RES_MIN, RES_MAX).unwrap();
                cx.judge(
                    4 + !matches!(e, Exp::Val(_)) as usize,
                    got.0 as i128 == w,
                    || format!("default {op} {a} {b}"),
                    || format!("got {}, model says {e:?}", got.0),
                );
            };
            see("saturating_add", l.saturating_add(r), lim((a + b) as i64));
            see("saturating_sub", l.saturating_sub(r), lim((a - b) as i64));
            see("saturating_mul", l.saturating_mul(r), lim((a * b) as i64));
            for m in MODES {
                let rm = checks::full::rm(m);
                see(&format!("saturating_rmul {m:?}"), l.saturating_rmul(r, rm), i64::expect((a * b) as i64, 10, m, RES_MIN, RES_MAX));
            }
        }
        cx.sample(|| format!("user type with default methods: {a} against all 256 right operands"));
    });
}

fn traces<F: Fx>(chk: &mut Check) {
    calc::trace_jobs::<F>(chk, 2, calc::saturating::<F>);
}

fn main() {
    let mut c = Check::new("C05", OUTCOMES);
    c.rule(
        "states are operand pairs; transitions are the saturating operations on the real crate, compared with the exact \
         result clamped to [MIN, MAX]: 73 fixed types (boundary alphabets + partners directed at the range limits, \
         every 16-bit left operand), 5 integer types (every i8 pair), every operand pair of a user type family that \
         relies on the provided default methods, and traces.",
    );
    c.bound("i8 and the user type: every pair; i16: every left operand (thorough: every pair); wider: boundary alphabets + directed partners");
    c.bound("traces: i16 closure to fixpoint, all types depth 2");
    defaults(&mut c);
    for_ints!(ints(&mut c));
    for_all_types!(pairs(&mut c));
    for_i16_types!(all16(&mut c));
    for_all_types!(traces(&mut c));
    c.run()
}
