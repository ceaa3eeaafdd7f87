//! C15: conversion to f64 and back.
use checks::float::{from_f64_ok, short_decimals, to_f64_ok};
use checks::{for_all_types, for_narrow_types, Fx};
use mc::lattice::{full, Set};
use mc::{Check, Cx};
use std::sync::Arc;

const OUTCOMES: &[&str] = &["float", "order of a pair", "round trip of at most 15 digits", "round trip"];

#[inline(always)]
fn conv<F: Fx>(a: i128, cx: &mut Cx) -> f64 {
    cx.at(|| format!("f64 from {} with bits {a}", F::name()));
    F::of(a).into()
}

fn state<F: Fx>(a: i128, cx: &mut Cx) -> f64 {
    cx.states += 1;
    let f = conv::<F>(a, cx);
    cx.judge(
        0,
        to_f64_ok::<F>(a, f),
        || format!("f64 from {} with bits {a}", F::name()),
        || format!("got {f:?} ({:#018x}), too far from the exact value", f.to_bits()),
    );
    cx.at(|| format!("{} with bits {a} to f64 and back", F::name()));
    let back = F::try_from(f).ok().map(|v: F| v.bits());
    let short = a.unsigned_abs() < 1_000_000_000_000_000;
    let ok = if short { back == Some(a) } else { from_f64_ok::<F>(f, back) };
    cx.traces += 1;
    cx.judge(
        if short { 2 } else { 3 },
        ok,
        || format!("{} with bits {a} to f64 and back", F::name()),
        || format!("through {f:?}: {back:?}"),
    );
    f
}

/// Every value of a 16-bit type; for the others consecutive values around every number of the
/// boundary alphabet. Order is checked between neighbours.
fn windows<F: Fx>(chk: &mut Check) {
    if F::BITS == 16 {
        chk.job(format!("all {}", F::name()), 256, |i, cx| {
            let lo = F::lo() + i as i128 * 256;
            run::<F>(lo - 1, lo + 255, cx);
        });
        return;
    }
    let rows = full(F::BITS, F::P);
    let r = if chk.thorough { 200 } else { 20 };
    chk.job(format!("windows {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        run::<F>(a.saturating_sub(r), a.saturating_add(r), cx);
        // a pair far apart: the next number of the alphabet
        if let Some(&b) = rows.get(i as usize + 1) {
            pair::<F>((a, conv::<F>(a, cx)), (b, conv::<F>(b, cx)), cx);
        }
    });
}

fn pair<F: Fx>(x: (i128, f64), y: (i128, f64), cx: &mut Cx) {
    cx.judge(1, x.1 <= y.1, || format!("order of f64 from {} with bits {} and {}", F::name(), x.0, y.0), || format!("{:?} > {:?}", x.1, y.1));
}

fn run<F: Fx>(lo: i128, hi: i128, cx: &mut Cx) {
    let mut last = None;
    for a in lo.max(F::lo())..=hi.min(F::hi()) {
        let f = state::<F>(a, cx);
        if let Some(l) = last {
            pair::<F>(l, (a, f), cx);
        }
        last = Some((a, f));
    }
    cx.sample(|| format!("{}: consecutive numbers with bits {lo}..={hi}, e.g. {hi} -> {:?}", F::name(), last.map(|l| l.1)));
}

/// Integer and fractional parts combined: whole part x fraction, over both alphabets.
fn parts<F: Fx>(chk: &mut Check) {
    if F::BITS == 16 || F::P == 0 {
        return;
    }
    let mut whole = Set::new(F::BITS);
    for k in 0..F::BITS {
        for d in -1..=1 {
            whole.one((1i128 << k.min(126)).checked_add(d));
        }
    }
    for k in 0..39 {
        whole.one(Some(mc::model::pow10(k.min(38))));
        whole.one(Some(mc::model::pow10(k.min(38)) - 1));
    }
    whole.around(F::hi() / F::coef(), 2);
    let whole: Vec<i128> = whole.vec().into_iter().filter(|w| *w >= 0 && *w <= F::hi() / F::coef()).collect();
    let mut fr = Set::new(F::BITS);
    let c = F::coef();
    for k in 0..F::P {
        let t = mc::model::pow10(k);
        for d in [1, 5, 9] {
            fr.around(t * d, 1);
            fr.one(c.checked_sub(t * d));
        }
    }
    for d in [2, 3, 7, 8, 64, 4096, 1 << 30] {
        fr.around(c / d, 1);
    }
    for k in 0..F::BITS - 1 {
        fr.one(Some(1i128 << k));
        fr.one(Some((1i128 << k) - 1));
        fr.one(Some((1i128 << k) + 1));
    }
    let fr: Vec<i128> = fr.vec().into_iter().filter(|f| *f >= 0 && *f < c).collect();
    chk.job(format!("parts {}", F::name()), whole.len() as u64, move |i, cx| {
        let w = whole[i as usize];
        for &f in &fr {
            if let Some(a) = (w * c).checked_add(f).filter(|a| *a <= F::hi()) {
                let p = state::<F>(a, cx);
                let n = state::<F>(-a, cx);
                cx.judge(0, a == 0 || p == -n, || format!("f64 from {} with bits {a} and {}", F::name(), -a), || format!("{p:?} and {n:?}"));
            }
        }
    });
}

fn decimals<F: Fx>(chk: &mut Check) {
    let ds: Arc<Vec<i128>> = Arc::new(short_decimals(chk.thorough));
    let n = 64;
    chk.job(format!("decimals {}", F::name()), ds.len().div_ceil(n) as u64, move |i, cx| {
        for &d in &ds[i as usize * n..ds.len().min((i as usize + 1) * n)] {
            let mut a = d;
            while a <= F::hi() {
                state::<F>(a, cx);
                state::<F>(-a, cx);
                match a.checked_mul(10) {
                    Some(x) => a = x,
                    None => break,
                }
            }
        }
    });
}

fn main() {
    let mut c = Check::new("C15", OUTCOMES);
    c.rule(
        "states are (type, number); transitions are f64::from on the real crate, judged against the exact value (2.5 ulp, \
         exact for whole numbers below 2^53, sign, order between neighbours), and TryFrom back (identity for at most 15 \
         digits, otherwise the error bound of C14). All 16-bit numbers; runs of consecutive numbers around every element of \
         the boundary alphabet; whole part x fraction products; short decimals at every scale. 73 types of the full \
         build, 34 of a build without i128.",
    );
    c.bound("16-bit types: all values; wider: boundary alphabet +-20 (thorough +-200), whole x fraction alphabets");
    for_all_types!(windows(&mut c));
    for_all_types!(parts(&mut c));
    for_all_types!(decimals(&mut c));
    for_narrow_types!(windows(&mut c));
    c.run()
}
