//! C02: rounding division and reciprocal.
use checks::{calc, cols, for_all_types, for_i128_types, for_i16_types, spec, Fx};
use mc::lattice::{core, div_partners, full, knuth_dividends, Set};
use mc::{Check, Cx, Mode, Out, MODES};
use std::sync::Arc;

const OUTCOMES: &[&str] = &["trace step with a value", "trace step with an error", "same as in another mode", "mode-dependent value", "overflow", "division by zero", "recip"];

/// One state (a, b): a / b in all modes.
#[inline(always)]
fn state<F: Fx>(a: i128, b: i128, cx: &mut Cx) {
    let (x, y) = (F::of(a), F::of(b));
    let nd = spec::rdiv_nd::<F>(a, b);
    cx.states += 1;
    let mut last = Out::Other;
    for m in MODES {
        cx.at(|| format!("{} rdiv {a} {b} {m:?}", F::name()));
        let got = x.rdiv(y, m);
        let class = match got {
            Out::Val(_) if got == last => 2,
            Out::Val(_) => 3,
            Out::DivZero => 5,
            _ => 4,
        };
        last = got;
        cx.judge(
            class,
            spec::ratio_ok::<F>(nd, m, got),
            || format!("{} rdiv {a} {b} {m:?}", F::name()),
            || format!("got {got:?}, model says {:?}", spec::rdiv::<F>(a, b, m)),
        );
    }
}

fn recip<F: Fx>(b: i128, cx: &mut Cx) {
    for m in MODES {
        cx.at(|| format!("{} recip {b} {m:?}", F::name()));
        let got = F::of(b).recip(m);
        cx.judge(
            6,
            spec::ratio_ok::<F>(spec::rdiv_nd::<F>(F::coef(), b), m, got),
            || format!("{} recip {b} {m:?}", F::name()),
            || format!("got {got:?}, model says {:?}", spec::rdiv::<F>(F::coef(), b, m)),
        );
    }
}

fn pairs<F: Fx>(chk: &mut Check) {
    let rows = Arc::new(full(F::BITS, F::P));
    let cols = Arc::new(cols::<F>(chk.thorough));
    chk.job(format!("pairs {}", F::name()), rows.len() as u64, move |i, cx| {
        let b = rows[i as usize];
        recip::<F>(b, cx);
        let mut seen = Set::new(F::BITS);
        for &a in cols.iter() {
            seen.one(Some(a));
            state::<F>(a, b, cx); // every row value as a divisor
            if cols.binary_search(&b).is_err() {
                state::<F>(b, a, cx); // and as a dividend
            }
        }
        for a in div_partners(F::BITS, F::P, b) {
            if !seen.contains(a) {
                state::<F>(a, b, cx);
            }
        }
        cx.sample(|| {
            let a = cols[cols.len() / 3];
            format!("{}: {a} / {b} Ceil -> {:?}", F::name(), F::of(a).rdiv(F::of(b), Mode::Ceil))
        });
    });
}

/// Dividends built from quotients with extreme 64-bit words, for divisors of more than one word.
fn words<F: Fx>(chk: &mut Check) {
    let lim = if chk.thorough { 64 } else { 126 };
    let rows: Vec<i128> = full(128, F::P)
        .into_iter()
        .filter(|b| b.unsigned_abs() > u64::MAX as u128)
        .enumerate()
        .filter(|(i, b)| i % 4 == F::P as usize % 4 || b.unsigned_abs() >> lim != 0)
        .map(|x| x.1)
        .collect();
    chk.job(format!("words {}", F::name()), rows.len() as u64, move |i, cx| {
        let b = rows[i as usize];
        for a in knuth_dividends(F::P, b) {
            state::<F>(a, b, cx);
        }
    });
}

/// Every 16-bit register value as dividend and as divisor (thorough: every pair).
fn all16<F: Fx>(chk: &mut Check) {
    let all = chk.thorough;
    let cols: Arc<Vec<i128>> = Arc::new(if all { (F::lo()..=F::hi()).collect() } else { core(16, F::P) });
    let per = if all { 4 } else { 256 };
    chk.job(format!("all16 {}", F::name()), 65536 / per, move |i, cx| {
        for k in 0..per {
            let a = F::lo() + (i * per + k) as i128;
            recip::<F>(a, cx);
            for &b in cols.iter() {
                state::<F>(a, b, cx);
                if !all {
                    state::<F>(b, a, cx);
                }
            }
        }
    });
}

fn traces<F: Fx>(chk: &mut Check) {
    calc::trace_jobs::<F>(chk, 2, calc::rdiv::<F>);
}

fn main() {
    let mut c = Check::new("C02", OUTCOMES);
    c.rule(
        "states are register pairs (type, a, b); transitions are a.rdiv(b, mode) for each mode and recip, executed \
         on the real crate and judged against the exact rational quotient (division-free for 128-bit storage). 73 \
         types; every value of the full boundary alphabet as divisor and as dividend against the core alphabet; \
         dividends directed at range limits, ties and integers for each divisor; for 128-bit storage dividends whose \
         quotients have extreme 64-bit words; every 16-bit value on either side; plus traces.",
    );
    c.bound("i16, P 0..=4: every dividend and every divisor in the type (thorough: every pair)");
    c.bound("i32/i64/i128, every P whose 10^P fits: boundary alphabets x boundary alphabets + directed dividends");
    c.bound("traces: i16 closure to fixpoint, all types depth 2");
    for_all_types!(pairs(&mut c));
    for_i128_types!(words(&mut c));
    for_i16_types!(all16(&mut c));
    for_all_types!(traces(&mut c));
    c.run()
}
