//! C12: mantissa/exponent conversion.
use checks::{calc, for_all_types, for_i16_types, for_i32_types, spec, Fx};
use mc::lattice::{full, Set};
use mc::model::{max_of, min_of};
use mc::{Big, Check, Cx};
use std::sync::Arc;

const OUTCOMES: &[&str] =
    &["trace step with a value", "trace step with an error", "from: value", "from: error", "to: exponent at the maximum", "to: stripped completely"];

#[inline(always)]
fn from<F: Fx>(m: i128, e: i32, cx: &mut Cx) {
    cx.states += 1;
    cx.at(|| format!("{} from_decimal {m} {e}", F::name()));
    let got = F::from_decimal(m, e);
    let want = spec::from_decimal::<F>(m, e);
    cx.judge(
        2 + got.is_none() as usize,
        got == want,
        || format!("{} from_decimal {m} {e}", F::name()),
        || format!("got {got:?}, model says {want:?}"),
    );
}

#[inline(always)]
fn to<F: Fx>(a: i128, max_e: i32, cx: &mut Cx) {
    cx.states += 1;
    cx.at(|| format!("{} to_decimal {a} {max_e}", F::name()));
    let (m, e) = F::of(a).to_decimal(max_e);
    let p = F::P as i32;
    let ok = if a == 0 {
        m == 0 && e == 0.min(max_e)
    } else {
        // m * 10^e = a * 10^-P with -P <= e <= max_e, and no zero left to strip below the maximum
        e >= -p
            && e <= max_e
            && e + p <= 40
            && (e == max_e || m % 10 != 0)
            && Big::i(m).mul(&Big::pow(10, (e + p) as u32)) == Big::i(a)
    };
    cx.judge(4 + (e < max_e) as usize, ok, || format!("{} to_decimal {a} {max_e}", F::name()), || format!("got ({m}, {e})"));
    if ok && e <= 10 {
        cx.at(|| format!("{} from_decimal {m} {e}", F::name()));
        let back = F::from_decimal(m, e);
        cx.judge(2, back == Some(a), || format!("{} from_decimal {m} {e}", F::name()), || format!("got {back:?}, model says {a}"));
    }
}

fn exponents<F: Fx>() -> Vec<i32> {
    let p = F::P as i32;
    let mut v: Vec<i32> = (-p - 3..=14).collect();
    v.extend([-100, 39, 40, 100, i32::MIN, i32::MIN + 1, i32::MAX, i32::MAX - 1, i32::MAX - p, i32::MIN + p]);
    v
}

fn froms<F: Fx>(chk: &mut Check) {
    let mut s = Set::new(F::BITS);
    for a in full(F::BITS, F::P) {
        s.one(Some(a));
    }
    for lim in [min_of(F::BITS), max_of(F::BITS)] {
        for k in 0..F::P + 11 {
            let (q, _) = Big::floor_divmod(&Big::i(lim), &Big::pow(10, k));
            s.near_big(&q, 2);
        }
    }
    let ms = s.vec();
    let es = exponents::<F>();
    chk.job(format!("from {}", F::name()), ms.len() as u64, move |i, cx| {
        for &e in &es {
            from::<F>(ms[i as usize], e, cx);
        }
        cx.sample(|| format!("{}: from_decimal({}, 1) -> {:?}", F::name(), ms[i as usize], F::from_decimal(ms[i as usize], 1)));
    });
}

fn tos<F: Fx>(chk: &mut Check) {
    let mut s = Set::new(F::BITS);
    for a in full(F::BITS, F::P) {
        s.one(Some(a));
    }
    // every number of trailing zeros after various leading digits
    let mut t = 1i128;
    loop {
        for d in [1, 2, 5, 9, 11, 25, 99, 101, 123, 505, 999] {
            if let Some(x) = t.checked_mul(d).filter(|x| *x <= F::hi()) {
                s.one(Some(x));
                s.one(Some(-x));
            }
        }
        let top = F::hi() / t * t;
        s.one(Some(top));
        s.one(Some(-top));
        match t.checked_mul(10).filter(|t| *t <= F::hi()) {
            Some(n) => t = n,
            None => break,
        }
    }
    let vals = s.vec();
    let p = F::P as i32;
    let mut maxs: Vec<i32> = (-p..=14).collect();
    maxs.extend([38, 39, 100, i32::MAX, i32::MAX - 1, i32::MAX - p]);
    chk.job(format!("to {}", F::name()), vals.len() as u64, move |i, cx| {
        for &e in &maxs {
            to::<F>(vals[i as usize], e, cx);
        }
        cx.sample(|| format!("{}: bits {} to_decimal(max) -> {:?}", F::name(), vals[i as usize], F::of(vals[i as usize]).to_decimal(i32::MAX)));
    });
}

fn all16<F: Fx>(chk: &mut Check) {
    let es = Arc::new(exponents::<F>());
    chk.job(format!("all16 {}", F::name()), 1024, move |i, cx| {
        for k in 0..64 {
            let a = F::lo() + (i * 64 + k) as i128;
            for &e in es.iter() {
                from::<F>(a, e, cx);
                if e >= -(F::P as i32) {
                    to::<F>(a, e, cx);
                }
            }
        }
    });
}

fn all32<F: Fx>(chk: &mut Check) {
    if !chk.thorough || F::P != 4 {
        return;
    }
    chk.job(format!("all32 {}", F::name()), 1 << 16, move |i, cx| {
        for k in 0..1 << 16 {
            to::<F>(F::lo() + ((i << 16) + k) as i128, 2, cx);
        }
    });
}

fn ops<F: Fx>(v: &mut Vec<calc::Op<F>>) {
    calc::decimal(v);
    calc::movers(v);
}
fn traces<F: Fx>(chk: &mut Check) {
    calc::trace_jobs::<F>(chk, if chk.thorough { 4 } else { 3 }, ops::<F>);
}

fn main() {
    let mut c = Check::new("C12", OUTCOMES);
    c.rule(
        "states are (mantissa, exponent) and (number, maximum exponent); transitions are from_decimal and to_decimal on the real \
         crate, compared with exact integers (to_decimal by its defining conditions, then converted back). 73 types: \
         boundary alphabets plus range limits divided by every power of ten, all exponents from -P-3 to 14 and \
         extreme ones; every 16-bit value; plus traces.",
    );
    c.bound("i16: every value; i32: to_decimal of every value (thorough, P 4); wider: boundary alphabets");
    c.bound("traces: i16 closure to fixpoint, all types depth 3 (thorough 4)");
    c.assume("to_decimal is not called with a maximum exponent below -PRECISION (documented to panic)");
    for_all_types!(froms(&mut c));
    for_all_types!(tos(&mut c));
    for_i16_types!(all16(&mut c));
    for_i32_types!(all32(&mut c));
    for_all_types!(traces(&mut c));
    c.run()
}
