//! C10: text output is exact and canonical, and reads back to the same number.
use checks::{calc, for_all_types, for_i16_types, for_i32_types, for_narrow_types, text, Fx};
use mc::lattice::{full, Set};
use mc::{Check, Cx};
use std::fmt::Write;

const OUTCOMES: &[&str] = &["trace step with a value", "trace step with an error", "printed", "printed and read back"];

#[inline(always)]
fn show<F: Fx>(a: i128, cx: &mut Cx) -> text::Buf {
    let x = F::of(a);
    cx.states += 1;
    let want = text::canonical(a, F::P);
    let mut got = text::Buf::new();
    cx.at(|| format!("{} Display of bits {a}", F::name()));
    let ok = write!(got, "{x}").is_ok() && got.bytes() == want.bytes();
    cx.judge(2, ok, || format!("{} Display of bits {a}", F::name()), || format!("got {:?}, model says {:?}", got.as_str(), want.as_str()));
    let mut got = text::Buf::new();
    cx.at(|| format!("{} Debug of bits {a}", F::name()));
    let ok = write!(got, "{x:?}").is_ok() && got.bytes() == want.bytes();
    cx.judge(2, ok, || format!("{} Debug of bits {a}", F::name()), || format!("got {:?}, model says {:?}", got.as_str(), want.as_str()));
    want
}

#[inline(always)]
fn state<F: Fx>(a: i128, cx: &mut Cx) {
    let t = show::<F>(a, cx);
    let t = t.as_str();
    cx.at(|| format!("{} parse {t:?}", F::name()));
    let got = F::parse(t);
    cx.judge(3, got == Some(a), || format!("{} parse {t:?}", F::name()), || format!("got {got:?}, model says {a}"));
    cx.at(|| format!("{} from_str_exact {t:?}", F::name()));
    let got = F::parse_exact(t);
    cx.judge(3, got == Some(a), || format!("{} from_str_exact {t:?}", F::name()), || format!("got {got:?}, model says {a}"));
}

fn alphabet<F: Fx>(chk: &mut Check) {
    let rows = full(F::BITS, F::P);
    chk.job(format!("alphabet {}", F::name()), rows.len() as u64, move |i, cx| {
        let a = rows[i as usize];
        state::<F>(a, cx);
        cx.sample(|| format!("{}: bits {a} -> {}", F::name(), F::of(a)));
    });
}

/// Every number with at most two non-zero decimal digits (every pattern of leading, inner and
/// trailing zeros), alone and on top of the largest whole number in range.
fn digits<F: Fx>(chk: &mut Check) {
    let mut pows = vec![1i128];
    while let Some(t) = pows.last().unwrap().checked_mul(10).filter(|t| *t <= F::hi()) {
        pows.push(t);
    }
    let n = pows.len();
    let base = F::hi() / F::coef() / 10 * 10 * F::coef();
    let thorough = chk.thorough;
    let full_build = F::BUILD == "full";
    chk.job(format!("digits {}", F::name()), (n * 9) as u64, move |i, cx| {
        let (j, d) = (i as usize / 9, i as i128 % 9 + 1);
        let Some(x) = pows[j].checked_mul(d) else { return };
        let es: &[i128] = if thorough { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9] } else { &[0, 1, 5, 9] };
        for &p in &pows[..j.max(1)] {
            for &e in es {
                let Some(y) = x.checked_add(e * p) else { continue };
                for v in [Some(y), y.checked_neg(), base.checked_add(y), (-base).checked_sub(y)] {
                    if let Some(v) = v.filter(|v| *v >= F::lo() && *v <= F::hi()) {
                        if full_build || d % 4 == 1 {
                            state::<F>(v, cx);
                        } else {
                            show::<F>(v, cx);
                        }
                    }
                }
            }
        }
    });
}

/// Every value in windows at zero, at whole numbers and at the extremes.
fn windows<F: Fx>(chk: &mut Check) {
    let per = 256i128;
    let n: u64 = match (F::BITS, chk.thorough) {
        (16, _) => return,
        (_, false) => 128,
        (_, true) => 4096,
    };
    let w = per * n as i128;
    let mut s = Set::new(F::BITS);
    let c = F::coef();
    for x in [-w / 2, c.saturating_sub(w / 2), -c - w / 2, F::hi() - w + 1, F::lo(), c / 10 * 9, F::hi() / 10 * 9, F::lo() / 10 * 9] {
        s.one(Some(x));
    }
    let starts: Vec<i128> = s.vec().into_iter().filter(|x| x.checked_add(w - 1).is_some_and(|e| e <= F::hi())).collect();
    chk.job(format!("windows {}", F::name()), starts.len() as u64 * n, move |i, cx| {
        let from = starts[(i / n) as usize] + (i % n) as i128 * per;
        for k in 0..per {
            state::<F>(from + k, cx);
        }
    });
}

fn all16<F: Fx>(chk: &mut Check) {
    if F::BITS != 16 {
        return;
    }
    chk.job(format!("all16 {}", F::name()), 256, move |i, cx| {
        for k in 0..256 {
            state::<F>(F::lo() + (i * 256 + k) as i128, cx);
        }
    });
}

fn all32<F: Fx>(chk: &mut Check) {
    if !chk.thorough || F::P != 5 {
        return;
    }
    chk.job(format!("all32 {}", F::name()), 1 << 16, move |i, cx| {
        for k in 0..1 << 16 {
            state::<F>(F::lo() + ((i << 16) + k) as i128, cx);
        }
    });
}

fn ops<F: Fx>(v: &mut Vec<calc::Op<F>>) {
    calc::text(v);
    calc::movers(v);
}
fn traces<F: Fx>(chk: &mut Check) {
    calc::trace_jobs::<F>(chk, if chk.thorough { 4 } else { 3 }, ops::<F>);
}

fn main() {
    let mut c = Check::new("C10", OUTCOMES);
    c.rule(
        "states are numbers; transitions are Display, Debug, parse and from_str_exact of the real crate, compared byte for byte \
         with a reference printer. 73 types of the full build and 34 of a build without the i128 feature (smaller \
         buffers): boundary alphabets, every pattern of one or two non-zero digits at every position, windows of \
         consecutive values at zero, one and the extremes, every 16-bit value; plus traces.",
    );
    c.bound("i16: every value in both builds; i32: every value for P 5 (thorough only); wider: boundary alphabets, two-digit patterns, windows");
    c.bound("traces: i16 closure to fixpoint, all types depth 3 (thorough 4)");
    c.assume("built with debug assertions, so that the crate's own buffer bounds assertions and unchecked accesses are live");
    for_all_types!(alphabet(&mut c));
    for_narrow_types!(alphabet(&mut c));
    for_all_types!(digits(&mut c));
    for_narrow_types!(digits(&mut c));
    for_all_types!(windows(&mut c));
    for_narrow_types!(windows(&mut c));
    for_i16_types!(all16(&mut c));
    for_narrow_types!(all16(&mut c));
    for_i32_types!(all32(&mut c));
    for_all_types!(traces(&mut c));
    c.run()
}
