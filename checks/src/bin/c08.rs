//! C08: half-sum.
use checks::{calc, cols, for_all_types, for_i16_types, spec, Fx};
use mc::lattice::{core, full, Set};
use mc::{Big, Check, Cx, MODES};
use std::sync::Arc;

const OUTCOMES: &[&str] = &["trace step with a value", "trace step with an error", "even sum", "odd sum"];

#[inline(always)]
fn state<F: Fx>(a: i128, b: i128, cx: &mut Cx) {
    let (x, y) = (F::of(a), F::of(b));
    cx.states += 1;
    for m in MODES {
        for (p, q, s, t) in [(x, y, a, b), (y, x, b, a)] {
            cx.at(|| format!("{} half_sum {s} {t} {m:?}", F::name()));
            let got = p.half_sum(q, m);
            cx.judge(
                2 + ((a ^ b) & 1) as usize,
                spec::half_sum_ok::<F>(s, t, m, got),
                || format!("{} half_sum {s} {t} {m:?}", F::name()),
                || format!("got {got}, which is not the {m:?} of the mean"),
            );
        }
    }
}

fn partners<F: Fx>(a: i128) -> Vec<i128> {
    let mut s = Set::new(F::BITS);
    let a_ = Big::i(a);
    for t in [0, 1, F::hi(), F::lo()] {
        s.near_big(&Big::i(t).sub(&a_), 2); // a + b = t
        s.near_big(&Big::i(t).add(&Big::i(t)).sub(&a_), 2); // mean = t
    }
    s.around(a, 2);
    s.vec()
}

fn pairs<F: Fx>(chk: &mut Check) {
    let rows = full(F::BITS, F::P);
    let cols = cols::<F>(chk.thorough);
    chk.job(format!("pairs {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        for b in cols.iter().copied().chain(partners::<F>(a)) {
            state::<F>(a, b, cx);
        }
        cx.sample(|| format!("{}: half_sum({a}, MAX) -> {:?}", F::name(), MODES.map(|m| F::of(a).half_sum(F::of(F::hi()), m))));
    });
}

fn all16<F: Fx>(chk: &mut Check) {
    let cols: Arc<Vec<i128>> = Arc::new(if chk.thorough { (F::lo()..=F::hi()).collect() } else { core(16, F::P) });
    chk.job(format!("all16 {}", F::name()), 8192, move |i, cx| {
        for k in 0..8 {
            let a = F::lo() + (i * 8 + k) as i128;
            for &b in cols.iter() {
                state::<F>(a, b, cx);
            }
        }
    });
}

fn traces<F: Fx>(chk: &mut Check) {
    calc::trace_jobs::<F>(chk, 2, calc::half::<F>);
}

fn main() {
    let mut c = Check::new("C08", OUTCOMES);
    c.rule(
        "states are operand pairs; transitions are half_sum with each mode in both operand orders on the real crate, judged \
         by 2 * result - (a + b): 0 or -1 for Floor, 0 or 1 for Ceil, at most 1 apart for Nearest. 73 types, boundary \
         alphabets plus partners near -a, a and the means at the range limits; every 16-bit left operand; plus traces.",
    );
    c.bound("i16: every left operand (thorough: every pair); wider: boundary alphabets + directed partners");
    c.bound("traces: i16 closure to fixpoint, all types depth 2");
    for_all_types!(pairs(&mut c));
    for_i16_types!(all16(&mut c));
    for_all_types!(traces(&mut c));
    c.run()
}
