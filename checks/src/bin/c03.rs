//! C03: rounding division with plain integers on either or both sides.
use checks::{calc, cols, for_all_types, for_i16_types, for_ints, spec, Fx, PlainInt};
use mc::lattice::{core, div_partners, full, Set};
use mc::model::{max_of, min_of, Wide};
use mc::{Check, Cx, Mode, Out, MODES};
use std::sync::Arc;

const OUTCOMES: &[&str] = &[
    "trace step with a value",
    "trace step with an error",
    "fixed/int value",
    "fixed/int error",
    "int/fixed value",
    "int/fixed error",
    "int/int value",
    "int/int error",
];

fn fixed_int<F: Fx>(a: i128, k: i128, cx: &mut Cx) {
    cx.states += 1;
    for m in MODES {
        cx.at(|| format!("{} rdiv-by-int {a} {k} {m:?}", F::name()));
        let got = F::of(a).rdiv_int(k, m);
        cx.judge(
            if matches!(got, Out::Val(_)) { 2 } else { 3 },
            spec::ratio_ok::<F>((F::w(a), F::w(k)), m, got),
            || format!("{} rdiv-by-int {a} {k} {m:?}", F::name()),
            || format!("got {got:?}, model says {:?}", spec::rdiv_int::<F>(a, k, m)),
        );
    }
}

fn int_fixed<F: Fx>(k: i128, b: i128, cx: &mut Cx) {
    cx.states += 1;
    for m in MODES {
        cx.at(|| format!("{} int-rdiv {k} {b} {m:?}", F::name()));
        let got = F::int_rdiv(k, F::of(b), m);
        cx.judge(
            if matches!(got, Out::Val(_)) { 4 } else { 5 },
            spec::int_rdiv_ok::<F>(k, b, m, got),
            || format!("{} int-rdiv {k} {b} {m:?}", F::name()),
            || format!("got {got:?}, model says {:?}", spec::int_rdiv::<F>(k, b, m)),
        );
    }
}

fn int_int<I: PlainInt>(a: i128, b: i128, cx: &mut Cx) {
    cx.states += 1;
    let (min, max) = (min_of(I::BITS), max_of(I::BITS));
    for m in MODES {
        cx.at(|| format!("{} rdiv {a} {b} {m:?}", I::NAME));
        let got = I::rdiv(I::of(a), I::of(b), m);
        cx.judge(
            if matches!(got, Out::Val(_)) { 6 } else { 7 },
            I::Wide::judge(I::Wide::of(a), I::Wide::of(b), m, min, max, got),
            || format!("{} rdiv {a} {b} {m:?}", I::NAME),
            || format!("got {got:?}, model says {:?}", I::Wide::expect(I::Wide::of(a), I::Wide::of(b), m, min, max)),
        );
    }
}

/// Integers that are small, at the edge of what the type can hold as a whole number, and beyond.
fn whole_ints<F: Fx>() -> Vec<i128> {
    let top = F::hi() / F::coef();
    let mut s = Set::new(F::BITS);
    for k in 0..=12 {
        s.around(k, 0);
    }
    for k in core(F::BITS, 0) {
        if k.unsigned_abs() <= top as u128 {
            s.one(Some(k));
        }
    }
    s.around(top, 2);
    s.around(top / 2, 1);
    s.around(top / 3, 0);
    for k in [F::lo(), F::hi(), F::lo() + 1, F::hi() / 2] {
        s.one(Some(k));
    }
    s.vec()
}

fn pairs<F: Fx>(chk: &mut Check) {
    let rows = Arc::new(full(F::BITS, F::P));
    let cols_k = Arc::new(if F::P == 0 || chk.thorough { core(F::BITS, 0) } else { cols::<F>(false) });
    let ks = Arc::new(whole_ints::<F>());
    chk.job(format!("mixed {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        for &k in cols_k.iter() {
            fixed_int::<F>(a, k, cx);
            if k != a {
                fixed_int::<F>(k, a, cx);
            }
        }
        for n in div_partners(F::BITS, 0, a) {
            fixed_int::<F>(n, a, cx);
        }
        for &k in ks.iter() {
            int_fixed::<F>(k, a, cx);
        }
        cx.sample(|| format!("{}: 7 / {a} Nearest -> {:?}", F::name(), F::int_rdiv(7, F::of(a), Mode::Nearest)));
    });
}

fn ints<I: PlainInt>(chk: &mut Check) {
    if I::BITS == 8 {
        chk.job("i8-all", 256, |i, cx| {
            for b in -128..128 {
                int_int::<I>(i as i128 - 128, b, cx);
            }
        });
        return;
    }
    let rows = full(I::BITS, 0);
    let cols = if chk.thorough { full(I::BITS, 0) } else { core(I::BITS, 0) };
    chk.job(format!("ints {}", I::NAME), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        for &b in &cols {
            int_int::<I>(a, b, cx);
            int_int::<I>(b, a, cx);
        }
        for n in div_partners(I::BITS, 0, a) {
            int_int::<I>(n, a, cx);
        }
        cx.sample(|| format!("{}: {a} / -3 Floor -> {:?}", I::NAME, I::rdiv(I::of(a), I::of(-3), Mode::Floor)));
    });
    if I::BITS == 16 {
        let cols: Vec<i128> = if chk.thorough { (-32768..32768).collect() } else { core(16, 0) };
        chk.job("i16-all", 4096, move |i, cx| {
            for k in 0..16 {
                let a = i as i128 * 16 + k - 32768;
                for &b in &cols {
                    int_int::<I>(a, b, cx);
                    int_int::<I>(b, a, cx);
                }
            }
        });
    }
}

fn all16<F: Fx>(chk: &mut Check) {
    let cols: Vec<i128> = if chk.thorough { full(16, 0) } else { core(16, 0) };
    let ks = whole_ints::<F>();
    chk.job(format!("all16 {}", F::name()), 4096, move |i, cx| {
        for k in 0..16 {
            let a = i as i128 * 16 + k - 32768;
            for &b in &cols {
                fixed_int::<F>(a, b, cx);
                fixed_int::<F>(b, a, cx);
            }
            for &b in &ks {
                int_fixed::<F>(b, a, cx);
            }
        }
    });
}

fn traces<F: Fx>(chk: &mut Check) {
    calc::trace_jobs::<F>(chk, 2, |v| {
        calc::rdiv_int::<F>(v);
        calc::int_rdiv::<F>(v);
    });
}

fn main() {
    let mut c = Check::new("C03", OUTCOMES);
    c.rule(
        "states are operand pairs (fixed, int), (int, fixed) or (int, int); transitions are rdiv with each mode, \
         executed on the real crate and judged against the exact quotient. 73 fixed types and 5 integer types; every \
         i8 pair; every 16-bit value on either side; boundary alphabets with directed dividends elsewhere; plus traces.",
    );
    c.bound("i8/i8: every pair; i16: every dividend and every divisor (thorough: every pair of plain i16)");
    c.bound("i32/i64/i128: boundary alphabets x boundary alphabets + directed dividends");
    c.assume("an integer dividend that does not fit the fixed-point type may be refused with an error (see the statement)");
    for_ints!(ints(&mut c));
    for_all_types!(pairs(&mut c));
    for_i16_types!(all16(&mut c));
    for_all_types!(traces(&mut c));
    c.run()
}
