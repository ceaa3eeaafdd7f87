//! C09: next power of ten, rounding towards zero by a step, sign.
use checks::{calc, cols, for_all_types, for_i16_types, for_i32_types, spec, Fx};
use mc::lattice::{core, full, Set};
use mc::{Check, Cx, Exp, Out};
use std::sync::Arc;

const OUTCOMES: &[&str] =
    &["trace step with a value", "trace step with an error", "power", "power not representable", "step rounding", "step zero", "sign"];

#[inline(always)]
fn unary<F: Fx>(a: i128, want: Exp, cx: &mut Cx) {
    let x = F::of(a);
    cx.states += 1;
    cx.at(|| format!("{} next_power_of_ten {a}", F::name()));
    let got = x.npt();
    cx.judge(
        2 + !matches!(got, Out::Val(_)) as usize,
        got == want.out(),
        || format!("{} next_power_of_ten {a}", F::name()),
        || format!("got {got:?}, model says {want:?}"),
    );
    cx.at(|| format!("{} signum {a}", F::name()));
    let got = x.signum();
    cx.judge(6, got == (a > 0) as i128 - (a < 0) as i128, || format!("{} signum {a}", F::name()), || format!("got {got}"));
}

#[inline(always)]
fn pair<F: Fx>(a: i128, b: i128, cx: &mut Cx) {
    cx.states += 1;
    cx.at(|| format!("{} round_towards_zero_by {a} {b}", F::name()));
    let got = F::of(a).rtz_by(F::of(b));
    let want = spec::rtz_by::<F>(a, b);
    cx.judge(
        4 + (b == 0) as usize,
        got == want,
        || format!("{} round_towards_zero_by {a} {b}", F::name()),
        || format!("got {got}, model says {want}"),
    );
}

fn pairs<F: Fx>(chk: &mut Check) {
    let rows = full(F::BITS, F::P);
    let cols = cols::<F>(chk.thorough);
    chk.job(format!("pairs {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        unary::<F>(a, spec::npt::<F>(a), cx);
        for &b in &cols {
            pair::<F>(a, b, cx);
            pair::<F>(b, a, cx);
        }
        // steps of which a is almost, exactly or just over a multiple
        let mut s = Set::new(F::BITS);
        for k in 1..=12 {
            s.around(a / k, 1);
        }
        for b in s.vec() {
            pair::<F>(a, b, cx);
            pair::<F>(b, a, cx);
        }
        cx.sample(|| format!("{}: next_power_of_ten({a}) -> {:?}", F::name(), F::of(a).npt()));
    });
}

/// Every power of ten in range, with wide neighbourhoods.
fn powers<F: Fx>(chk: &mut Check) {
    let mut centres = vec![0i128];
    let mut t = 1i128;
    loop {
        centres.push(t);
        centres.push(-t);
        match t.checked_mul(10) {
            Some(x) if x <= F::hi() => t = x,
            _ => break,
        }
    }
    for k in 0..F::BITS - 1 {
        centres.push(1i128 << k);
        centres.push(-(1i128 << k));
    }
    let r: i128 = if chk.thorough { 2000 } else { 200 };
    chk.job(format!("powers {}", F::name()), centres.len() as u64, move |i, cx| {
        let c = centres[i as usize];
        // the expected answer changes only at powers of ten; recompute it for every value
        for d in -r..=r {
            if let Some(a) = c.checked_add(d).filter(|a| *a >= F::lo() && *a <= F::hi()) {
                unary::<F>(a, spec::npt::<F>(a), cx);
            }
        }
    });
}

fn all16<F: Fx>(chk: &mut Check) {
    let cols: Arc<Vec<i128>> = Arc::new(if chk.thorough { (F::lo()..=F::hi()).collect() } else { core(16, F::P) });
    chk.job(format!("all16 {}", F::name()), 8192, move |i, cx| {
        for k in 0..8 {
            let a = F::lo() + (i * 8 + k) as i128;
            unary::<F>(a, spec::npt::<F>(a), cx);
            for &b in cols.iter() {
                pair::<F>(a, b, cx);
            }
        }
    });
}

fn all32<F: Fx>(chk: &mut Check) {
    if !chk.thorough || F::P != 3 {
        return;
    }
    chk.job(format!("all32 {}", F::name()), 1 << 16, move |i, cx| {
        for k in 0..1 << 16 {
            let a = F::lo() + ((i << 16) + k) as i128;
            let want = npt_i64(a as i64, F::hi() as i64);
            unary::<F>(a, want, cx);
        }
    });
}
/// The same definition on machine integers, for the exhaustive 32-bit job.
fn npt_i64(a: i64, hi: i64) -> Exp {
    let mut t = 1i64;
    while t < a.abs() {
        t *= 10;
    }
    if t > hi {
        return if a < 0 { Exp::Below } else { Exp::Above };
    }
    Exp::Val(if a < 0 { -t } else { t } as i128)
}

fn ops<F: Fx>(v: &mut Vec<calc::Op<F>>) {
    calc::steps(v);
    calc::movers(v);
}
fn traces<F: Fx>(chk: &mut Check) {
    calc::trace_jobs::<F>(chk, if chk.thorough { 3 } else { 2 }, ops::<F>);
}

fn main() {
    let mut c = Check::new("C09", OUTCOMES);
    c.rule(
        "states are register values (next_power_of_ten, signum) and pairs (round_towards_zero_by); transitions execute the \
         real operation and compare with the definition. 73 types: boundary alphabets, neighbourhoods of every power \
         of ten and of two, steps around every small fraction of the value, every 16-bit value; plus traces.",
    );
    c.bound("i16: every value and left operand (thorough: every pair); i32: every value (thorough, P 3); wider: boundary alphabets");
    c.bound("traces: i16 closure to fixpoint, all types depth 2 (thorough 3)");
    for_all_types!(pairs(&mut c));
    for_all_types!(powers(&mut c));
    for_i16_types!(all16(&mut c));
    for_i32_types!(all32(&mut c));
    for_all_types!(traces(&mut c));
    c.run()
}
