//! Operand alphabets. Every alphabet is a deterministic finite set; nothing here is sampled.

use crate::big::Big;
use crate::model::{max_of, min_of, pow10};
use std::collections::BTreeSet;

/// Collects values, keeping those inside the storage range.
pub struct Set {
    bits: u32,
    s: BTreeSet<i128>,
}

impl Set {
    pub fn new(bits: u32) -> Set {
        Set { bits, s: BTreeSet::new() }
    }
    pub fn one(&mut self, x: Option<i128>) {
        if let Some(x) = x {
            if x >= min_of(self.bits) && x <= max_of(self.bits) {
                self.s.insert(x);
            }
        }
    }
    /// x + [-r, r] and the negations
    pub fn around(&mut self, x: i128, r: i128) {
        for d in -r..=r {
            let y = x.checked_add(d);
            self.one(y);
            self.one(y.and_then(|y| y.checked_neg()));
        }
    }
    /// q + [-r, r] without the negations
    pub fn near_big(&mut self, q: &Big, r: i128) {
        for d in -r..=r {
            self.one(q.add(&Big::i(d)).to_i128());
        }
    }
    pub fn vec(self) -> Vec<i128> {
        self.s.into_iter().collect()
    }
    pub fn len(&self) -> usize {
        self.s.len()
    }
    pub fn contains(&self, x: i128) -> bool {
        self.s.contains(&x)
    }
}

const IRREGULAR: [u128; 10] = [
    0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835,
    0x5555_5555_5555_5555_5555_5555_5555_5555,
    0x6A09_E667_F3BC_C908_B2FB_1366_EA95_7D3E,
    0x7FFF_FFFF_0000_0000_FFFF_FFFF_8000_0001,
    0x4000_0000_0000_0000_FFFF_FFFF_FFFF_FFFF,
    0x7FFF_FFFF_FFFF_FFFF_0000_0000_0000_0001,
    0x3243_F6A8_885A_308D_3131_98A2_E037_0734,
    0x7FFF_FFFF_FFFF_FFFE_FFFF_FFFF_FFFF_FFFF,
    0x0123_4567_89AB_CDEF_FEDC_BA98_7654_3210,
    0x2AAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA_AAAA,
];

/// The broad alphabet of register values of a type: every binary and decimal boundary with its
/// neighbours, both signs, the grid of the type, halves of it, extremes, roots, repeated digits
/// and a few irregular patterns at every length.
pub fn full(bits: u32, p: u32) -> Vec<i128> {
    build(bits, p, true)
}

/// A smaller alphabet with one representative per class, for second operands.
pub fn core(bits: u32, p: u32) -> Vec<i128> {
    build(bits, p, false)
}

fn build(bits: u32, p: u32, full: bool) -> Vec<i128> {
    let max = max_of(bits);
    let coef = pow10(p);
    let mut s = Set::new(bits);
    for x in 0..=if full { 20 } else { 11 } {
        s.around(x, 0);
    }
    for k in 0..bits - 1 {
        if full {
            s.around(1i128 << k, 2);
        } else if k % 8 == 7 || k % 32 == 0 || k % 32 >= 30 || k >= bits - 4 {
            s.around(1i128 << k, 1);
        }
    }
    let mut t = 1i128;
    let mut k = 0;
    loop {
        s.around(t, if full { 2 } else { (k % 3 == 0) as i128 });
        if full {
            for m in [2, 3, 5, 9] {
                if let Some(x) = t.checked_mul(m) {
                    s.around(x, if m == 5 { 1 } else { 0 });
                }
            }
        } else if let Some(x) = t.checked_mul(5) {
            s.around(x, 0);
        }
        match t.checked_mul(10) {
            Some(n) if n <= max => t = n,
            _ => break,
        }
        k += 1;
    }
    // grid and half grid of the type
    let muls: &[i128] = if full {
        &[1, 2, 3, 4, 5, 7, 9, 10, 11, 12, 15, 99, 100, 101, 255, 1000, 12345]
    } else {
        &[1, 2, 3, 10]
    };
    for &m in muls {
        if let Some(x) = coef.checked_mul(m) {
            s.around(x, 1);
            if let Some(y) = x.checked_add(coef / 2) {
                s.around(y, 1);
            }
        }
    }
    s.around(coef / 2, 1);
    s.around(coef / 3, 1);
    // near the range limits, on and off the grid
    for d in 0..if full { 6 } else { 3 } {
        s.one(Some(max - d));
        s.one(Some(-max + d));
    }
    s.one(Some(min_of(bits)));
    let top = max / coef; // largest integer in range
    s.around(top, 1);
    s.around(top * coef, 1);
    if let Some(x) = (top * coef).checked_add(coef / 2) {
        s.around(x, 1);
    }
    for k in 2..=if full { 12 } else { 4 } {
        s.around(max / k, if full { 1 } else { 0 });
    }
    // values whose squares are near the range limit, and roots of the limits
    let root = |x: &Big| x.isqrt().to_i128().unwrap_or(0);
    s.around(root(&Big::i(max).mul(&Big::i(coef))), 2);
    s.around(root(&Big::i(max)), 1);
    s.around(root(&Big::i(coef)), 1);
    // repeated digits and irregular patterns of every length
    let step = if full { 1 } else { 4 };
    for d in [1i128, 3, 7, 9] {
        let mut x = 0i128;
        let mut n = 0;
        while let Some(y) = x.checked_mul(10).and_then(|y| y.checked_add(d)) {
            if y > max {
                break;
            }
            x = y;
            n += 1;
            if n % step == 0 {
                s.around(x, 0);
            }
        }
    }
    let mut x: i128 = 0;
    for d in (1..=9).chain(0..=9).chain(0..=9).chain(1..=9) {
        match x.checked_mul(10).and_then(|y| y.checked_add(d)) {
            Some(y) if y <= max => x = y,
            _ => break,
        }
        s.around(x, 0);
    }
    for (i, w) in IRREGULAR.iter().enumerate() {
        let mut sh = 129 - bits;
        while sh < 127 {
            s.around((w >> sh) as i128, 0);
            sh += if full { 5 } else { 24 + i as u32 };
        }
    }
    // 64-bit word patterns of the 128-bit storage
    if bits == 128 {
        let his: [u64; 9] = [0, 1, 2, 0xFFFF_FFFF, 1 << 32, 1 << 62, (1 << 62) + 1, i64::MAX as u64 - 1, i64::MAX as u64];
        let los: [u64; 8] = [0, 1, 2, 0xFFFF_FFFF, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX];
        for (i, h) in his.iter().enumerate() {
            for (j, l) in los.iter().enumerate() {
                if full || (i + j) % 3 == 0 {
                    s.around(((*h as u128) << 64 | *l as u128) as i128, 0);
                }
            }
        }
    }
    s.vec()
}

/// Values of `b` that make `a * b / coef` interesting for this `a`: at the range limits, at exact
/// ties and integers, and one unit around each.
pub fn mul_partners(bits: u32, p: u32, a: i128) -> Vec<i128> {
    let mut s = Set::new(bits);
    if a == 0 {
        return vec![];
    }
    let coef = Big::i(pow10(p));
    let (min, max) = (Big::i(min_of(bits)), Big::i(max_of(bits)));
    let aa = Big::i(a).abs();
    let sign = a.signum();
    let put = |n: &Big, s: &mut Set| {
        // b ~ n / a
        let (q, _) = n.floor_divmod(&aa);
        let q = if sign < 0 { q.neg() } else { q };
        s.near_big(&q, 1);
    };
    let one = Big::u(1);
    for lim in [max, min] {
        put(&lim.mul(&coef), &mut s);
        // lim + 1/2 and lim + 1 (outwards)
        let out = if lim.sign() > 0 { one } else { one.neg() };
        put(&lim.add(&out).mul(&coef), &mut s);
        let (half, _) = lim.dbl().add(&out).mul(&coef).floor_divmod(&Big::u(2));
        put(&half, &mut s);
    }
    // exact results and exact ties: a*b = k * coef / 2
    let g = gcd(a.unsigned_abs(), pow10(p) as u128 * 2);
    // smallest b with a*b a multiple of 2*coef
    let Ok(unit) = i128::try_from(pow10(p) as u128 * 2 / g) else { return s.vec() };
    for m in [1i128, 2, 3, 5, 7] {
        for div in [1, 2, 4] {
            if unit % div == 0 {
                if let Some(b) = (unit / div).checked_mul(m) {
                    s.around(b, 1);
                }
            }
        }
    }
    // the largest such partners in range
    let top = max_of(bits) / unit * unit;
    for div in [1, 2, 4] {
        if unit % div == 0 && top > unit {
            s.around(top - unit / div, 1);
        }
    }
    s.vec()
}

/// Values of `a` that make `a * coef / b` interesting for this `b`: near the range limits, near
/// ties and integers.
pub fn div_partners(bits: u32, p: u32, b: i128) -> Vec<i128> {
    let mut s = Set::new(bits);
    if b == 0 {
        return vec![];
    }
    let coef = Big::i(pow10(p));
    let bb = Big::i(b);
    let max = max_of(bits);
    // 2 * a * coef ~ q2 * b  with q2 = 2 * quotient
    let two_coef = coef.dbl();
    let mut q2s: Vec<Big> = vec![];
    for q in [0i128, 1, 2, 3, 7, 10, pow10(p), max / 3, max / 2, max - 1, max] {
        for x in [q.saturating_neg(), q] {
            q2s.push(Big::i(x).dbl());
            q2s.push(Big::i(x).dbl().add(&Big::u(1)));
            q2s.push(Big::i(x).dbl().sub(&Big::u(1)));
        }
    }
    q2s.push(Big::i(min_of(bits)).dbl());
    q2s.push(Big::i(min_of(bits)).dbl().sub(&Big::u(1)));
    q2s.push(Big::i(min_of(bits)).dbl().sub(&Big::u(2)));
    q2s.push(Big::i(max).dbl().add(&Big::u(2)));
    for q2 in q2s {
        let (a, _) = q2.mul(&bb).floor_divmod(&two_coef);
        s.near_big(&a, 1);
    }
    s.vec()
}

/// Dividends for 128-bit division whose quotient has extreme 64-bit words: drives the multi-word
/// long division into its rare corrections.
pub fn knuth_dividends(p: u32, b: i128) -> Vec<i128> {
    let mut s = Set::new(128);
    if b == 0 {
        return vec![];
    }
    let coef = Big::i(pow10(p));
    let words = [0u64, 1, 2, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX - 1, u64::MAX];
    for hi in words {
        for lo in words {
            let q = Big::u((hi as u128) << 64 | lo as u128);
            let (a, _) = q.mul(&Big::i(b).abs()).floor_divmod(&coef);
            s.near_big(&a, 1);
            s.near_big(&a.neg(), 0);
        }
    }
    s.vec()
}

pub fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn sizes() {
        for (b, ps) in [(16, 0..=4), (32, 0..=9), (64, 0..=18), (128, 0..=38)] {
            for p in ps {
                let (f, c) = (full(b, p), core(b, p));
                println!("{b} {p}: full {} core {}", f.len(), c.len());
                for x in &f {
                    mul_partners(b, p, *x);
                    div_partners(b, p, *x);
                    assert!(*x >= min_of(b) && *x <= max_of(b));
                }
            }
        }
    }
}
