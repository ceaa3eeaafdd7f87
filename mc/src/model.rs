//! The reference model of fixed-point arithmetic: values are integers ("bits"), an operation is an
//! exact rational n/d followed by one rounding into [min, max].

use crate::big::Big;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Floor,
    Nearest,
    Ceil,
}
pub const MODES: [Mode; 3] = [Mode::Floor, Mode::Nearest, Mode::Ceil];

/// What the implementation answered.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Out {
    Val(i128),
    Overflow,
    DivZero,
    Domain,
    Other,
}

/// What the model expects.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Exp {
    Val(i128),
    Above,
    Below,
    DivZero,
    Domain,
}

impl Exp {
    pub fn out(self) -> Out {
        match self {
            Exp::Val(v) => Out::Val(v),
            Exp::Above | Exp::Below => Out::Overflow,
            Exp::DivZero => Out::DivZero,
            Exp::Domain => Out::Domain,
        }
    }

    /// The value after saturating, if the operation is a total one.
    pub fn saturated(self, min: i128, max: i128) -> Option<i128> {
        match self {
            Exp::Val(v) => Some(v),
            Exp::Above => Some(max),
            Exp::Below => Some(min),
            _ => None,
        }
    }
}

pub fn min_of(bits: u32) -> i128 {
    if bits == 128 {
        i128::MIN
    } else {
        -(1i128 << (bits - 1))
    }
}

pub fn max_of(bits: u32) -> i128 {
    if bits == 128 {
        i128::MAX
    } else {
        (1i128 << (bits - 1)) - 1
    }
}

pub fn pow10(p: u32) -> i128 {
    let mut r = 1i128;
    for _ in 0..p {
        r *= 10;
    }
    r
}

/// Arithmetic wide enough that the products of two stored values and doublings of them fit.
pub trait Wide: Copy + Ord + std::fmt::Debug {
    fn of(x: i128) -> Self;
    fn times(self, o: Self) -> Self;
    fn plus(self, o: Self) -> Self;
    fn minus(self, o: Self) -> Self;
    fn negated(self) -> Self;
    /// floor and non-negative remainder, `d > 0`
    fn floor_divmod(self, d: Self) -> (Self, Self);
    fn isqrt(self) -> Self;
    fn narrow(self) -> Option<i128>;

    /// `n / d` (d != 0) rounded to an integer; `Nearest` takes halves away from zero.
    fn round_div(n: Self, d: Self, mode: Mode) -> Self {
        let zero = Self::of(0);
        let (n, d) = if d < zero { (n.negated(), d.negated()) } else { (n, d) };
        let (q, r) = n.floor_divmod(d);
        let up = match mode {
            Mode::Floor => false,
            Mode::Ceil => r != zero,
            Mode::Nearest => {
                let twice = r.plus(r);
                twice > d || (twice == d && n > zero)
            }
        };
        if up {
            q.plus(Self::of(1))
        } else {
            q
        }
    }

    fn expect(n: Self, d: Self, mode: Mode, min: i128, max: i128) -> Exp {
        if d == Self::of(0) {
            return Exp::DivZero;
        }
        Self::clamp_exp(Self::round_div(n, d, mode), min, max)
    }

    fn clamp_exp(q: Self, min: i128, max: i128) -> Exp {
        if q > Self::of(max) {
            Exp::Above
        } else if q < Self::of(min) {
            Exp::Below
        } else {
            Exp::Val(q.narrow().unwrap())
        }
    }

    /// Is `out` what the model allows for `n / d`?
    #[inline]
    fn judge(n: Self, d: Self, mode: Mode, min: i128, max: i128, out: Out) -> bool {
        Self::expect(n, d, mode, min, max).out() == out
    }

    /// Like `judge` for an operation that clamps instead of failing (d != 0).
    #[inline]
    fn judge_sat(n: Self, d: Self, mode: Mode, min: i128, max: i128, got: i128) -> bool {
        Self::expect(n, d, mode, min, max).saturated(min, max) == Some(got)
    }
}

macro_rules! native {
    ($t:ty) => {
        impl Wide for $t {
            #[inline]
            fn of(x: i128) -> Self {
                x as $t
            }
            #[inline]
            fn times(self, o: Self) -> Self {
                self * o
            }
            #[inline]
            fn plus(self, o: Self) -> Self {
                self + o
            }
            #[inline]
            fn minus(self, o: Self) -> Self {
                self - o
            }
            #[inline]
            fn negated(self) -> Self {
                -self
            }
            #[inline]
            fn floor_divmod(self, d: Self) -> (Self, Self) {
                (self.div_euclid(d), self.rem_euclid(d))
            }
            fn isqrt(self) -> Self {
                // bit by bit
                let mut r: $t = 0;
                let mut k = (<$t>::BITS / 2 - 1) as i32;
                while k >= 0 {
                    let t = r | 1 << k;
                    if t * t <= self {
                        r = t;
                    }
                    k -= 1;
                }
                r
            }
            #[inline]
            fn narrow(self) -> Option<i128> {
                Some(self as i128)
            }
        }
    };
}
native!(i64); // for 16-bit storage
native!(i128); // for 32- and 64-bit storage

impl Wide for Big {
    #[inline]
    fn of(x: i128) -> Self {
        Big::i(x)
    }
    #[inline]
    fn times(self, o: Self) -> Self {
        Big::mul(&self, &o)
    }
    #[inline]
    fn plus(self, o: Self) -> Self {
        Big::add(&self, &o)
    }
    #[inline]
    fn minus(self, o: Self) -> Self {
        Big::sub(&self, &o)
    }
    #[inline]
    fn negated(self) -> Self {
        Big::neg(&self)
    }
    fn floor_divmod(self, d: Self) -> (Self, Self) {
        Big::floor_divmod(&self, &d)
    }
    fn isqrt(self) -> Self {
        Big::isqrt(&self)
    }
    fn narrow(self) -> Option<i128> {
        self.to_i128()
    }

    // The same specification without dividing: characterises the rounded quotient by
    // inequalities between products, which is much faster than the bitwise division.
    fn judge(n: Self, d: Self, mode: Mode, min: i128, max: i128, out: Out) -> bool {
        if d.is_zero() {
            return out == Out::DivZero;
        }
        let (n, d) = if d.sign() < 0 { (n.neg(), d.neg()) } else { (n, d) };
        match out {
            Out::Val(r) => min <= r && r <= max && is_rounding(&n, &d, mode, r),
            Out::Overflow => above(&n, &d, mode, max) || below(&n, &d, mode, min),
            _ => false,
        }
    }

    fn judge_sat(n: Self, d: Self, mode: Mode, min: i128, max: i128, got: i128) -> bool {
        let (n, d) = if d.sign() < 0 { (n.neg(), d.neg()) } else { (n, d) };
        is_rounding(&n, &d, mode, got)
            || (got == max && above(&n, &d, mode, max))
            || (got == min && below(&n, &d, mode, min))
    }
}

fn is_rounding(n: &Big, d: &Big, mode: Mode, r: i128) -> bool {
    use std::cmp::Ordering::*;
    let diff = n.sub(&Big::i(r).mul(d)); // (exact - r) * d
    match mode {
        Mode::Floor => diff.sign() >= 0 && diff.cmp_abs(d) == Less,
        Mode::Ceil => diff.sign() <= 0 && diff.cmp_abs(d) == Less,
        Mode::Nearest => match diff.dbl().cmp_abs(d) {
            Less => true,
            Equal => diff.sign() == -n.sign(), // rounded away from zero
            Greater => false,
        },
    }
}

fn above(n: &Big, d: &Big, mode: Mode, max: i128) -> bool {
    let m = Big::i(max);
    let one = Big::u(1);
    match mode {
        Mode::Floor => *n >= m.add(&one).mul(d),
        Mode::Ceil => *n > m.mul(d),
        Mode::Nearest => n.dbl() >= m.dbl().add(&one).mul(d),
    }
}

fn below(n: &Big, d: &Big, mode: Mode, min: i128) -> bool {
    let m = Big::i(min);
    let one = Big::u(1);
    match mode {
        Mode::Floor => *n < m.mul(d),
        Mode::Ceil => *n <= m.sub(&one).mul(d),
        Mode::Nearest => n.dbl() <= m.dbl().sub(&one).mul(d),
    }
}

/// The exact square root of `x` rounded to an integer.
pub fn round_sqrt<W: Wide>(x: W, mode: Mode) -> W {
    let lo = x.isqrt();
    let up = match mode {
        Mode::Floor => false,
        Mode::Ceil => lo.times(lo) != x,
        // sqrt(x) is never exactly lo + 1/2 for an integer x, and sqrt(x) > lo + 1/2 <=> x > lo^2 + lo
        Mode::Nearest => x > lo.times(lo).plus(lo),
    };
    if up {
        lo.plus(W::of(1))
    } else {
        lo
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    // The two formulations of the specification (compute, characterise) agree on every small case.
    #[test]
    fn formulations_agree() {
        for n in -60i128..=60 {
            for d in -9i128..=9 {
                for mode in MODES {
                    for (min, max) in [(-8i128, 7i128), (-16, 15)] {
                        let e = <i128 as Wide>::expect(n, d, mode, min, max);
                        assert_eq!(e, <Big as Wide>::expect(Big::i(n), Big::i(d), mode, min, max));
                        let mut ok = vec![];
                        for out in (min - 2..=max + 2).map(Out::Val).chain([
                            Out::Overflow,
                            Out::DivZero,
                            Out::Domain,
                            Out::Other,
                        ]) {
                            if Big::judge(Big::i(n), Big::i(d), mode, min, max, out) {
                                ok.push(out);
                            }
                        }
                        assert_eq!(ok, vec![e.out()], "{n} {d} {mode:?}");
                        if d != 0 {
                            for got in min..=max {
                                assert_eq!(
                                    Big::judge_sat(Big::i(n), Big::i(d), mode, min, max, got),
                                    e.saturated(min, max) == Some(got)
                                );
                            }
                        }
                    }
                }
            }
        }
    }

    #[test]
    fn rounding_by_hand() {
        let r = |n: i64, d: i64, m| <i64 as Wide>::round_div(n, d, m);
        assert_eq!(r(5, 2, Mode::Nearest), 3);
        assert_eq!(r(-5, 2, Mode::Nearest), -3);
        assert_eq!(r(5, -2, Mode::Nearest), -3);
        assert_eq!(r(-5, 2, Mode::Floor), -3);
        assert_eq!(r(-5, 2, Mode::Ceil), -2);
        assert_eq!(r(4, 3, Mode::Nearest), 1);
        assert_eq!(r(-4, 3, Mode::Nearest), -1);
        assert_eq!(r(-4, 3, Mode::Ceil), -1);
    }

    #[test]
    fn roots() {
        for x in 0..10_000i128 {
            let f = round_sqrt(x, Mode::Floor);
            assert!(f * f <= x && (f + 1) * (f + 1) > x);
            let c = round_sqrt(x, Mode::Ceil);
            assert!(c * c >= x && (c == 0 || (c - 1) * (c - 1) < x));
            let n = round_sqrt(x, Mode::Nearest);
            // |sqrt(x) - n| <= 1/2  <=>  (2n-1)^2 <= 4x <= (2n+1)^2
            assert!((n == 0 || (2 * n - 1).pow(2) <= 4 * x) && 4 * x <= (2 * n + 1).pow(2));
            assert_eq!(round_sqrt(Big::i(x), Mode::Nearest).to_i128(), Some(n));
        }
    }
}
