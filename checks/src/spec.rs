//! The reference semantics of each operation, on raw representations.
//!
//! `x_exp` computes the expected answer, `x_ok` decides whether an answer is allowed (for 128-bit
//! storage by product inequalities instead of a division).

use crate::Fx;
use mc::model::{round_sqrt, Wide};
use mc::{Big, Exp, Mode, Out};

fn lim<F: Fx>(q: F::Wide) -> Exp {
    F::Wide::clamp_exp(q, F::lo(), F::hi())
}

pub fn add<F: Fx>(a: i128, b: i128) -> Exp {
    lim::<F>(F::w(a).plus(F::w(b)))
}
pub fn sub<F: Fx>(a: i128, b: i128) -> Exp {
    lim::<F>(F::w(a).minus(F::w(b)))
}
pub fn mul_int<F: Fx>(a: i128, k: i128) -> Exp {
    lim::<F>(F::w(a).times(F::w(k)))
}
pub fn neg<F: Fx>(a: i128) -> Exp {
    lim::<F>(F::w(a).negated())
}
pub fn abs<F: Fx>(a: i128) -> Exp {
    lim::<F>(if a < 0 { F::w(a).negated() } else { F::w(a) })
}

#[inline(always)]
pub fn rmul_nd<F: Fx>(a: i128, b: i128) -> (F::Wide, F::Wide) {
    (F::w(a).times(F::w(b)), F::w(F::coef()))
}
pub fn rmul<F: Fx>(a: i128, b: i128, m: Mode) -> Exp {
    let (n, d) = rmul_nd::<F>(a, b);
    F::Wide::expect(n, d, m, F::lo(), F::hi())
}
#[inline(always)]
pub fn ratio_ok<F: Fx>((n, d): (F::Wide, F::Wide), m: Mode, out: Out) -> bool {
    F::Wide::judge(n, d, m, F::lo(), F::hi(), out)
}

#[inline(always)]
pub fn rdiv_nd<F: Fx>(a: i128, b: i128) -> (F::Wide, F::Wide) {
    (F::w(a).times(F::w(F::coef())), F::w(b))
}
pub fn rdiv<F: Fx>(a: i128, b: i128, m: Mode) -> Exp {
    let (n, d) = rdiv_nd::<F>(a, b);
    F::Wide::expect(n, d, m, F::lo(), F::hi())
}
pub fn rdiv_int<F: Fx>(a: i128, k: i128, m: Mode) -> Exp {
    F::Wide::expect(F::w(a), F::w(k), m, F::lo(), F::hi())
}

/// A plain integer `k` divided by the number with bits `b`. The flag says that the dividend is too
/// large for the type, so that an error is acceptable as well.
pub fn int_rdiv<F: Fx>(k: i128, b: i128, m: Mode) -> (Exp, bool) {
    let coef = Big::i(F::coef());
    let kk = Big::i(k).mul(&coef);
    let refusable = kk > Big::i(F::hi()) || kk < Big::i(F::lo());
    if refusable {
        (Big::expect(kk.mul(&coef), Big::i(b), m, F::lo(), F::hi()), true)
    } else {
        (rdiv::<F>(k * F::coef(), b, m), false)
    }
}
pub fn int_rdiv_ok<F: Fx>(k: i128, b: i128, m: Mode, out: Out) -> bool {
    match k.checked_mul(F::coef()).filter(|x| *x >= F::lo() && *x <= F::hi()) {
        Some(x) => ratio_ok::<F>(rdiv_nd::<F>(x, b), m, out),
        None => {
            let coef = Big::i(F::coef());
            matches!(out, Out::Overflow | Out::DivZero if b == 0 || out == Out::Overflow)
                || Big::judge(Big::i(k).mul(&coef).mul(&coef), Big::i(b), m, F::lo(), F::hi(), out)
        }
    }
}

pub fn sqrt<F: Fx>(a: i128, m: Mode) -> Exp {
    if a < 0 {
        return Exp::Domain;
    }
    lim::<F>(round_sqrt(F::w(a).times(F::w(F::coef())), m))
}

/// sqrt without computing one: r is the rounded root of x = a * coef.
pub fn sqrt_ok<F: Fx>(a: i128, m: Mode, out: Out) -> bool {
    if a < 0 {
        return out == Out::Domain;
    }
    let Out::Val(r) = out else { return false };
    if r < 0 {
        return false;
    }
    let x = F::w(a).times(F::w(F::coef()));
    let one = F::w(1);
    let r = F::w(r);
    match m {
        // r^2 <= x < (r+1)^2
        Mode::Floor => {
            let up = r.plus(one);
            r.times(r) <= x && x < up.times(up)
        }
        // (r-1)^2 < x <= r^2
        Mode::Ceil => {
            if r == F::w(0) {
                return x == F::w(0);
            }
            let dn = r.minus(one);
            dn.times(dn) < x && x <= r.times(r)
        }
        // r - 1/2 < sqrt(x) < r + 1/2  <=>  r^2 - r < x <= r^2 + r  (no ties over the integers)
        Mode::Nearest => {
            let sq = r.times(r);
            (r == F::w(0) && x == F::w(0)) || (sq.minus(r) < x && x <= sq.plus(r))
        }
    }
}

/// (a + b) / 2; a tie under Nearest may go either way.
pub fn half_sum_ok<F: Fx>(a: i128, b: i128, m: Mode, got: i128) -> bool {
    let s = F::w(a).plus(F::w(b));
    let g2 = F::w(got).plus(F::w(got));
    let diff = g2.minus(s); // 2 * (got - mean)
    let (zero, one) = (F::w(0), F::w(1));
    match m {
        Mode::Floor => diff == zero || diff == one.negated(),
        Mode::Ceil => diff == zero || diff == one,
        Mode::Nearest => diff == zero || diff == one || diff == one.negated(),
    }
}

pub fn integral<F: Fx>(a: i128, m: Mode) -> i128 {
    F::Wide::round_div(F::w(a), F::w(F::coef()), m).narrow().unwrap()
}
/// floor/ceil/round as a fixed-point number
pub fn whole<F: Fx>(a: i128, m: Mode) -> Exp {
    lim::<F>(F::w(integral::<F>(a, m)).times(F::w(F::coef())))
}

pub fn rtz_by<F: Fx>(a: i128, step: i128) -> i128 {
    if step == 0 {
        return a;
    }
    // multiple of |step| with the largest magnitude not above |a|
    let (aa, ss) = (a.unsigned_abs(), step.unsigned_abs());
    let m = aa / ss * ss;
    if a < 0 {
        0i128.wrapping_sub_unsigned(m)
    } else {
        m as i128
    }
}

/// Smallest power of ten in units of the last place, not below |a|, with the sign of a; 1 for 0.
pub fn npt<F: Fx>(a: i128) -> Exp {
    let aa = Big::i(a).abs();
    let mut t = Big::u(1);
    while t < aa {
        t = t.mul(&Big::u(10));
    }
    if a < 0 {
        t = t.neg();
    }
    Big::clamp_exp(t, F::lo(), F::hi())
}

/// mantissa * 10^exponent in units of the last place
pub fn from_decimal<F: Fx>(m: i128, e: i32) -> Option<i128> {
    if e < -(F::P as i32) || e > 10 {
        return None;
    }
    let x = Big::i(m).mul(&Big::pow(10, (e + F::P as i32) as u32));
    match Big::clamp_exp(x, F::lo(), F::hi()) {
        Exp::Val(v) => Some(v),
        _ => None,
    }
}
