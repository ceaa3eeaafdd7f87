//! C04: checked addition, subtraction, multiplication by an integer, negation, absolute value.
use checks::{calc, cols, for_all_types, for_i16_types, for_ints, spec, Fx, PlainInt};
use mc::lattice::{core, full, Set};
use mc::model::{max_of, min_of, Wide};
use mc::{Big, Check, Cx, Exp, Out};
use std::sync::Arc;

const OUTCOMES: &[&str] = &["trace step with a value", "trace step with an error", "value", "overflow", "plain int value", "plain int overflow"];

#[inline(always)]
fn cls(o: Out, base: usize) -> usize {
    base + !matches!(o, Out::Val(_)) as usize
}

#[inline(always)]
fn one<F: Fx>(op: &str, a: i128, b: i128, real: impl FnOnce() -> Out, want: Exp, cx: &mut Cx) {
    cx.at(|| format!("{} {op} {a} {b}", F::name()));
    let got = real();
    cx.judge(cls(got, 2), got == want.out(), || format!("{} {op} {a} {b}", F::name()), || format!("got {got:?}, model says {want:?}"));
}

fn state<F: Fx>(a: i128, b: i128, cx: &mut Cx) {
    let (x, y) = (F::of(a), F::of(b));
    cx.states += 1;
    one::<F>("cadd", a, b, || x.cadd(y), spec::add::<F>(a, b), cx);
    one::<F>("csub", a, b, || x.csub(y), spec::sub::<F>(a, b), cx);
    let p = spec::mul_int::<F>(a, b);
    one::<F>("cmul-int", a, b, || x.cmul_int(b), p, cx);
    one::<F>("int-cmul", a, b, || F::int_cmul(a, y), p, cx);
}

fn unary<F: Fx>(a: i128, cx: &mut Cx) {
    let x = F::of(a);
    one::<F>("cneg", a, 0, || x.cneg(), spec::neg::<F>(a), cx);
    one::<F>("abs", a, 0, || x.abs(), spec::abs::<F>(a), cx);
}

/// Operands that put a+b, a-b and a*b right at the range limits.
fn partners(bits: u32, a: i128) -> Vec<i128> {
    let mut s = Set::new(bits);
    let a_ = Big::i(a);
    for lim in [min_of(bits), max_of(bits)] {
        let l = Big::i(lim);
        s.near_big(&l.sub(&a_), 1); // a + b = lim
        s.near_big(&a_.sub(&l), 1); // a - b = lim
        if a != 0 {
            let (q, _) = Big::floor_divmod(&l, &a_.abs());
            let q = if a < 0 { q.neg() } else { q };
            s.near_big(&q, 1); // a * b ~ lim
        }
    }
    s.vec()
}

fn pairs<F: Fx>(chk: &mut Check) {
    let rows = full(F::BITS, F::P);
    let cols = cols::<F>(chk.thorough);
    chk.job(format!("pairs {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        unary::<F>(a, cx);
        for &b in &cols {
            state::<F>(a, b, cx);
            state::<F>(b, a, cx);
        }
        for b in partners(F::BITS, a) {
            state::<F>(a, b, cx);
            state::<F>(b, a, cx);
        }
        cx.sample(|| format!("{}: {a} + MAX -> {:?}", F::name(), F::of(a).cadd(F::of(F::hi()))));
    });
}

fn all16<F: Fx>(chk: &mut Check) {
    let cols: Arc<Vec<i128>> = Arc::new(if chk.thorough { (F::lo()..=F::hi()).collect() } else { core(16, F::P) });
    chk.job(format!("all16 {}", F::name()), 8192, move |i, cx| {
        for k in 0..8 {
            let a = F::lo() + (i * 8 + k) as i128;
            unary::<F>(a, cx);
            for &b in cols.iter() {
                state::<F>(a, b, cx);
            }
        }
    });
}

fn int_state<I: PlainInt>(a: i128, b: i128, cx: &mut Cx) {
    cx.states += 1;
    let (min, max) = (min_of(I::BITS), max_of(I::BITS));
    let (wa, wb) = (I::Wide::of(a), I::Wide::of(b));
    for (op, real, want) in [
        ("cadd", I::cadd as fn(I, I) -> Out, wa.plus(wb)),
        ("csub", I::csub, wa.minus(wb)),
        ("cmul", I::cmul, wa.times(wb)),
    ] {
        cx.at(|| format!("{} {op} {a} {b}", I::NAME));
        let got = real(I::of(a), I::of(b));
        let want = I::Wide::clamp_exp(want, min, max);
        cx.judge(cls(got, 4), got == want.out(), || format!("{} {op} {a} {b}", I::NAME), || format!("got {got:?}, model says {want:?}"));
    }
}

fn ints<I: PlainInt>(chk: &mut Check) {
    if I::BITS <= 8 {
        chk.job("i8-all", 256, |i, cx| {
            for b in -128..128 {
                int_state::<I>(i as i128 - 128, b, cx);
            }
        });
        return;
    }
    let rows = full(I::BITS, 0);
    let cols = if chk.thorough { full(I::BITS, 0) } else { core(I::BITS, 0) };
    chk.job(format!("ints {}", I::NAME), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        for &b in &cols {
            int_state::<I>(a, b, cx);
            int_state::<I>(b, a, cx);
        }
        for b in partners(I::BITS, a) {
            int_state::<I>(a, b, cx);
            int_state::<I>(b, a, cx);
        }
        cx.sample(|| format!("{}: {a} * -1 -> {:?}", I::NAME, I::cmul(I::of(a), I::of(-1))));
    });
}

fn traces<F: Fx>(chk: &mut Check) {
    calc::trace_jobs::<F>(chk, 2, calc::checked::<F>);
}

fn main() {
    let mut c = Check::new("C04", OUTCOMES);
    c.rule(
        "states are operand pairs; transitions are cadd, csub, cmul (both operand orders), cneg, abs on the real \
         crate, compared with exact arithmetic. 73 fixed types, 5 integer types; every i8 pair, every 16-bit left \
         operand, boundary alphabets plus partners directed at the range limits; plus traces.",
    );
    c.bound("i8: every pair; i16: every left operand (thorough: every pair); wider: boundary alphabets + directed partners");
    c.bound("traces: i16 closure to fixpoint, all types depth 2");
    for_ints!(ints(&mut c));
    for_all_types!(pairs(&mut c));
    for_i16_types!(all16(&mut c));
    for_all_types!(traces(&mut c));
    c.run()
}
