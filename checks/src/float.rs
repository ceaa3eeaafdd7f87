//! Reference semantics of the conversions from and to f64, on exact integers.

use crate::Fx;
use mc::Big;

/// |x| = m * 2^e with 0 <= m < 2^53, for finite x.
pub fn decompose(x: f64) -> (bool, u64, i32) {
    let raw = x.to_bits();
    let exp = ((raw >> 52) & 0x7FF) as i32;
    let frac = raw & ((1 << 52) - 1);
    let neg = raw >> 63 == 1;
    if exp == 0 {
        (neg, frac, -1074)
    } else {
        (neg, frac | 1 << 52, exp - 1075)
    }
}

pub fn compose(neg: bool, exp: u64, frac: u64) -> f64 {
    f64::from_bits((neg as u64) << 63 | exp << 52 | frac)
}

/// The exact value as a whole number, if it is one below 2^200.
pub fn whole(x: f64) -> Option<Big> {
    let (neg, m, e) = decompose(x);
    let v = if e >= 0 {
        if e > 140 {
            return None;
        }
        Big::u(m as u128).mul(&Big::pow(2, e as u32))
    } else {
        let sh = (-e) as u32;
        if m != 0 && m.trailing_zeros() < sh {
            return None;
        }
        Big::u(m.checked_shr(sh).unwrap_or(0) as u128)
    };
    Some(if neg { v.neg() } else { v })
}

/// Is `got` an allowed result of converting `x`?
///
/// The error bound is 5/9 of the last place plus 13e-16 of the magnitude; whole numbers are exact.
/// An error is allowed only if the bound reaches beyond the range.
pub fn from_f64_ok<F: Fx>(x: f64, got: Option<i128>) -> bool {
    if !x.is_finite() {
        return got.is_none();
    }
    let (lo, hi) = (F::lo(), F::hi());
    let coef = Big::i(F::coef());
    if let Some(w) = whole(x) {
        let want = w.mul(&coef).to_i128().filter(|v| *v >= lo && *v <= hi);
        return got == want;
    }
    let (neg, m, e) = decompose(x);
    if e > 100 {
        return got.is_none(); // whole and beyond every range
    }
    if e < -210 {
        return got == Some(0); // far below half of the last place
    }
    // everything scaled by 9e16 * 2^k
    let k = (-e).max(0) as u32;
    let scale = Big::pow(2, k).mul(&Big::u(90_000_000_000_000_000));
    let mag = Big::u(m as u128).mul(&Big::pow(2, (e + k as i32) as u32)).mul(&coef); // |x| * 10^P * 2^k
    let exact = mag.mul(&Big::u(90_000_000_000_000_000));
    let exact = if neg { exact.neg() } else { exact };
    let tol = Big::pow(2, k).mul(&Big::u(50_000_000_000_000_000)).add(&mag.mul(&Big::u(117)));
    match got {
        Some(r) => {
            let d = Big::i(r).mul(&scale).sub(&exact).abs();
            r >= lo && r <= hi && d <= tol
        }
        None => {
            let up = exact.add(&tol);
            let dn = exact.sub(&tol);
            // a rounded result would reach hi + 1 or lo - 1
            up >= Big::i(hi).add(&Big::u(1)).mul(&scale) || dn <= Big::i(lo).sub(&Big::u(1)).mul(&scale)
        }
    }
}

/// Is `f` an allowed float for the number with bits `a`?
pub fn to_f64_ok<F: Fx>(a: i128, f: f64) -> bool {
    if !f.is_finite() {
        return false;
    }
    if a == 0 {
        return f == 0.0 && f.is_sign_positive();
    }
    let (neg, m, e) = decompose(f);
    if m == 0 || neg != (a < 0) {
        return false;
    }
    let coef = Big::i(F::coef());
    let aa = Big::i(a).abs();
    if a % F::coef() == 0 && (a / F::coef()).unsigned_abs() < 1 << 53 {
        // exact
        return whole(f).is_some_and(|w| w.abs().mul(&coef) == aa);
    }
    // 2 |m * 2^e * 10^P - |a|| <= 5 * 2^e * 10^P
    if !(-200..=80).contains(&e) {
        return false;
    }
    let k = (-e).max(0) as u32;
    let ulp = Big::pow(2, (e + k as i32) as u32).mul(&coef);
    let v = ulp.mul(&Big::u(m as u128));
    let d = v.sub(&aa.mul(&Big::pow(2, k))).abs();
    d.add(&d) <= ulp.mul(&Big::u(5))
}

pub fn next_up(x: f64) -> f64 {
    // towards +infinity, by bit pattern
    let b = x.to_bits();
    if x == 0.0 {
        f64::from_bits(1)
    } else if x > 0.0 {
        f64::from_bits(b + 1)
    } else {
        f64::from_bits(b - 1)
    }
}

/// Integers with at most 15 significant digits (and no trailing zero, mostly), of every length.
pub fn short_decimals(thorough: bool) -> Vec<i128> {
    let mut s = std::collections::BTreeSet::new();
    let mut rep1 = 0i128;
    let mut seq = 0i128;
    let mut t = 1i128;
    for n in 1..=15u32 {
        rep1 = rep1 * 10 + 1;
        seq = seq * 10 + (n as i128 * 7 % 10).max(1);
        for d in 1..=9 {
            s.insert(rep1 * d);
            s.insert(t * d);
            s.insert(t * d + 1);
            if t > 10 {
                s.insert(t * d + 5);
                s.insert(t * d - 1);
                s.insert(t * d + t / 10 * 5);
            }
        }
        s.insert(seq);
        // halves and powers of two of that length
        for k in 0..50 {
            let x = 1i128 << k;
            if x >= t && x < t * 10 {
                for d in -1..=1 {
                    s.insert(x + d);
                    if thorough {
                        s.insert(3 * x + d);
                        s.insert(5 * x + d);
                        s.insert(7 * x + d);
                    }
                }
            }
        }
        for w in [0x9E37_79B9_7F4A_7C15u64, 0x6A09_E667_F3BC_C908, 0x2AAA_AAAA_AAAA_AAAA, 0x3243_F6A8_885A_308D, 0xB7E1_5162_8AED_2A6A] {
            let m = if thorough { 64 } else { 8 };
            for k in 0..m {
                s.insert((w.rotate_left(k * 64 / m) as i128) % (t * 10));
            }
        }
        t *= 10;
    }
    s.into_iter().filter(|x| *x > 0 && *x < 1_000_000_000_000_000).collect()
}
