//! C01: rounding multiplication.
use checks::{calc, cols, for_all_types, for_i16_types, spec, Fx};
use mc::lattice::{core, full, mul_partners, Set};
use mc::model::Wide;
use mc::{Check, Cx, Out, MODES};
use std::sync::Arc;

const OUTCOMES: &[&str] = &["trace step with a value", "trace step with an error", "exact", "rounded", "overflow"];

/// One state (a, b): both operand orders, all modes.
#[inline(always)]
fn state<F: Fx>(a: i128, b: i128, cx: &mut Cx) {
    let (x, y) = (F::of(a), F::of(b));
    let (n, d) = spec::rmul_nd::<F>(a, b);
    cx.states += 1;
    let mut last = Out::Other;
    for (i, m) in MODES.into_iter().enumerate() {
        cx.at(|| format!("{} rmul {a} {b} {m:?}", F::name()));
        let got = x.rmul(y, m);
        let class = match got {
            Out::Val(_) if i > 0 && got == last => 2,
            Out::Val(_) => 3,
            _ => 4,
        };
        last = got;
        cx.step(class);
        if !spec::ratio_ok::<F>((n, d), m, got) {
            cx.fail(
                format!("{} rmul {a} {b} {m:?}", F::name()),
                format!("got {got:?}, model says {:?}", spec::rmul::<F>(a, b, m)),
            );
        }
        if i as i128 != (a ^ b) & 1 {
            continue;
        }
        cx.at(|| format!("{} rmul {b} {a} {m:?}", F::name()));
        let flipped = y.rmul(x, m);
        cx.step(class);
        if flipped != got {
            cx.fail(format!("{} rmul {b} {a} {m:?}", F::name()), format!("got {flipped:?}, but {got:?} for the other operand order"));
        }
    }
}

fn pairs<F: Fx>(chk: &mut Check) {
    let rows = Arc::new(full(F::BITS, F::P));
    let cols = Arc::new(cols::<F>(chk.thorough));
    chk.job(format!("pairs {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        for &b in cols.iter() {
            state::<F>(a, b, cx);
        }
        // partners directed at the range limits, ties and exact results for this a
        let mut seen = Set::new(F::BITS);
        for &c in cols.iter() {
            seen.one(Some(c));
        }
        for b in mul_partners(F::BITS, F::P, a) {
            if !seen.contains(b) {
                state::<F>(a, b, cx);
            }
        }
        cx.sample(|| format!("{}: {a} * each of {} operands, e.g. {} -> {:?}", F::name(), cols.len(), cols[cols.len() / 3], F::of(a).rmul(F::of(cols[cols.len() / 3]), mc::Mode::Nearest)));
    });
}

/// Complete: every 16-bit register value (against an operand alphabet, or against every operand).
fn all16<F: Fx>(chk: &mut Check) {
    let cols: Arc<Vec<i128>> = Arc::new(if chk.thorough { (F::lo()..=F::hi()).collect() } else { core(16, F::P) });
    let per = if chk.thorough { 4 } else { 256 };
    chk.job(format!("all16 {}", F::name()), 65536 / per, move |i, cx| {
        for k in 0..per {
            let a = F::lo() + (i * per + k) as i128;
            for &b in cols.iter() {
                let x = F::of(a);
                let y = F::of(b);
                let n = F::w(a).times(F::w(b));
                cx.states += 1;
                for m in MODES {
                    cx.at(|| format!("{} rmul {a} {b} {m:?}", F::name()));
                    let got = x.rmul(y, m);
                    cx.step(if got == Out::Overflow { 4 } else { 3 });
                    if !spec::ratio_ok::<F>((n, F::w(F::coef())), m, got) {
                        cx.fail(format!("{} rmul {a} {b} {m:?}", F::name()), format!("got {got:?}, model says {:?}", spec::rmul::<F>(a, b, m)));
                    }
                }
            }
        }
    });
}

fn traces<F: Fx>(chk: &mut Check) {
    calc::trace_jobs::<F>(chk, 2, calc::rmul::<F>);
}

fn main() {
    let mut c = Check::new("C01", OUTCOMES);
    c.rule(
        "states are register pairs (type, a, b); transitions are rmul with each mode, and one mode in the other operand order, \
         executed on the real crate and judged against the exact rational product. 73 types; a from the full \
         boundary alphabet of the type, b from the core alphabet plus partners of a at range limits, ties and \
         exact results; every 16-bit a; plus traces: closure of the 16-bit register machine and all rmul \
         sequences of the given depth.",
    );
    c.bound("i16, P 0..=4: every a in the type (thorough: every pair)");
    c.bound("i32/i64/i128, every P whose 10^P fits: boundary alphabets x boundary alphabets + directed partners");
    c.bound("traces: i16 closure to fixpoint, all types depth 2");
    for_all_types!(pairs(&mut c));
    for_i16_types!(all16(&mut c));
    for_all_types!(traces(&mut c));
    c.run()
}
