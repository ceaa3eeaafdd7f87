//! C14: conversion from f64.
use checks::float::{compose, from_f64_ok, next_up, short_decimals};
use checks::{for_all_types, for_narrow_types, text, Fx};
use mc::lattice::full;
use mc::{Check, Cx};
use std::sync::Arc;

const OUTCOMES: &[&str] = &["value", "error", "short decimal", "pair of neighbours"];

#[inline(always)]
fn conv<F: Fx>(x: f64, cx: &mut Cx) -> Option<i128> {
    cx.at(|| format!("{} try_from f64 {:#018x}", F::name(), x.to_bits()));
    F::try_from(x).ok().map(|v: F| v.bits())
}

/// The float and its negation.
#[inline(always)]
fn state<F: Fx>(x: f64, cx: &mut Cx) -> Option<i128> {
    cx.states += 1;
    cx.traces += 1;
    let got = conv::<F>(x, cx);
    cx.judge(
        got.is_none() as usize,
        from_f64_ok::<F>(x, got),
        || format!("{} try_from f64 {:#018x}", F::name(), x.to_bits()),
        || format!("({x:?}) got {got:?}, outside the allowed error"),
    );
    let neg = conv::<F>(-x, cx);
    // symmetric, except that MIN has no counterpart
    let ok = match (got, neg) {
        (Some(a), Some(b)) => a == -b,
        (None, Some(b)) => b == F::lo(),
        (Some(a), None) => a == F::lo(),
        (None, None) => true,
    };
    cx.judge(
        neg.is_none() as usize,
        ok && from_f64_ok::<F>(-x, neg),
        || format!("{} try_from f64 {:#018x}", F::name(), (-x).to_bits()),
        || format!("({:?}) got {neg:?}, and {got:?} for its negation", -x),
    );
    got
}

/// Every exponent with a family of mantissas.
fn exponents<F: Fx>(chk: &mut Check) {
    let mut ms: Vec<u64> = vec![0, 1, 2, 3, (1 << 52) - 1, (1 << 52) - 2, 1 << 51, (1 << 51) + 1, (1 << 51) - 1];
    for w in [0x9E37_79B9_7F4A_7C15u64, 0x5555_5555_5555_5555, 0xAAAA_AAAA_AAAA_AAAA, 0x6A09_E667_F3BC_C908, 0x3333_3333_3333_3333] {
        ms.push(w & ((1 << 52) - 1));
        ms.push(w >> 12);
    }
    for k in 0..52 {
        ms.push(1 << k);
        ms.push((1 << 52) - (1 << k));
        if chk.thorough {
            ms.push(3 << k & ((1 << 52) - 1));
            for w in [0x9E37_79B9_7F4A_7C15u64, 0x6A09_E667_F3BC_C908, 0xB7E1_5162_8AED_2A6A] {
                ms.push(w.rotate_left(k) >> 12);
            }
        }
    }
    ms.sort();
    ms.dedup();
    let short: Vec<u64> = vec![0, 1, (1 << 52) - 1, 1 << 51, 0x9_E377_9B97_F4A7];
    chk.job(format!("exponents {}", F::name()), 2048, move |e, cx| {
        let near = (1023 - 240..=1023 + 132).contains(&e);
        for &m in if near { &ms } else { &short } {
            state::<F>(compose(false, e, m), cx);
        }
        cx.sample(|| format!("{}: exponent field {e}, e.g. {:?} -> {:?}", F::name(), compose(false, e, 1 << 51), F::try_from(compose(false, e, 1 << 51)).ok().map(|x: F| x.bits())));
    });
}

/// Floats around every number of the boundary alphabet and around the midpoint above it, in order.
fn around<F: Fx>(chk: &mut Check) {
    let rows = full(F::BITS, F::P);
    let r = if chk.thorough { 40 } else { 6 };
    chk.job(format!("around {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        let s = text::canonical(a, F::P);
        let mid = format!("{}5", text::canonical(a, F::P).as_str().to_string() + &"0".repeat(pad(s.as_str(), F::P)));
        for t in [s.as_str(), &mid] {
            let c: f64 = t.parse().unwrap();
            // start r floats below and walk up
            let mut x = c;
            for _ in 0..r {
                x = -next_up(-x);
            }
            let mut last: Option<(f64, Option<i128>)> = None;
            for _ in 0..=2 * r {
                let got = state::<F>(x, cx);
                if let Some((y, before)) = last {
                    let ok = match (before, got) {
                        (Some(p), Some(q)) => p <= q,
                        (Some(_), None) => x > 0.0,
                        (None, Some(_)) => y < 0.0,
                        (None, None) => true,
                    };
                    cx.judge(3, ok, || format!("{} order of f64 {:#018x} and the next", F::name(), y.to_bits()), || format!("{before:?}, then {got:?}"));
                }
                last = Some((x, got));
                x = next_up(x);
            }
        }
    });
}

/// Zeros to append so that one more digit is half of the last place.
fn pad(s: &str, p: u32) -> usize {
    let f = s.len() - s.find('.').unwrap() - 1;
    (p as usize).saturating_sub(f)
}

/// The float nearest to a number of at most 15 digits, counted in steps of the type, converts to that number.
fn decimals<F: Fx>(chk: &mut Check) {
    let ds: Arc<Vec<i128>> = Arc::new(short_decimals(chk.thorough));
    let n = 64;
    chk.job(format!("decimals {}", F::name()), ds.len().div_ceil(n) as u64, move |i, cx| {
        for &d in &ds[i as usize * n..ds.len().min((i as usize + 1) * n)] {
            let mut a = d;
            while a <= F::hi() && a < 1_000_000_000_000_000 {
                for v in [a, -a] {
                    decimal::<F>(v, cx);
                }
                match a.checked_mul(10) {
                    Some(x) => a = x,
                    None => break,
                }
            }
        }
    });
    // the extremes of the narrow types are short decimals
    chk.job(format!("extremes {}", F::name()), 1, |_, cx| {
        for v in [F::lo(), F::hi(), F::lo() + 1] {
            if v.unsigned_abs() < 1_000_000_000_000_000 {
                decimal::<F>(v, cx);
            }
        }
        for x in [0.0, f64::NAN, f64::INFINITY, f64::MIN_POSITIVE, f64::MAX, f64::from_bits(0x7FF0_0000_0000_0001), f64::from_bits(0xFFF8_0000_0000_0000)] {
            state::<F>(x, cx);
        }
    });
}

fn decimal<F: Fx>(v: i128, cx: &mut Cx) {
    let s = text::canonical(v, F::P);
    let x: f64 = s.as_str().parse().unwrap();
    cx.states += 1;
    cx.traces += 1;
    let got = conv::<F>(x, cx);
    cx.judge(2, got == Some(v), || format!("{} try_from f64 {:#018x} (of {})", F::name(), x.to_bits(), s.as_str()), || format!("got {got:?}, model says {v}"));
}

fn main() {
    let mut c = Check::new("C14", OUTCOMES);
    c.rule(
        "states are (type, float bit pattern), each with its negation; the transition is TryFrom<f64> on the real crate, judged \
         against the exact rational value of the float with the property's error bound, exactly for whole numbers and for \
         numbers of at most 15 digits counted in the type's smallest step; runs of consecutive floats are checked for order. All 2048 exponents x a \
         family of mantissas, floats around every number of the boundary alphabet and every midpoint, short decimals at \
         every scale. 73 types of the full build, 34 of a build without i128.",
    );
    c.bound("mantissas: every single bit, its complement, extremes and irregular patterns (thorough: more)");
    for_all_types!(decimals(&mut c));
    for_all_types!(around(&mut c));
    for_all_types!(exponents(&mut c));
    for_narrow_types!(around(&mut c));
    for_narrow_types!(exponents(&mut c));
    c.run()
}
