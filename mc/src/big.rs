//! A deliberately boring exact integer: sign + magnitude, seven 64-bit limbs (448 bits).
//!
//! It is the arithmetic the reference model is written in for 128-bit storage. Nothing here is
//! shared with the code under test: schoolbook multiplication, and a division that shifts and
//! subtracts one bit at a time. Every operation that would not fit panics (the harness reports
//! that as an error of the harness, never as a verdict).

use std::cmp::Ordering;

const N: usize = 7;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Big {
    neg: bool, // never true for zero
    mag: [u64; N],
}

impl Big {
    pub const ZERO: Big = Big { neg: false, mag: [0; N] };

    #[inline]
    pub fn u(x: u128) -> Big {
        let mut mag = [0; N];
        mag[0] = x as u64;
        mag[1] = (x >> 64) as u64;
        Big { neg: false, mag }
    }

    #[inline]
    pub fn i(x: i128) -> Big {
        let mut b = Big::u(x.unsigned_abs());
        b.neg = x < 0;
        b
    }

    pub fn pow(base: u64, e: u32) -> Big {
        let mut r = Big::u(1);
        for _ in 0..e {
            r = r.mul(&Big::u(base as u128));
        }
        r
    }

    pub fn is_zero(&self) -> bool {
        self.mag == [0; N]
    }

    /// -1, 0 or 1
    #[inline]
    pub fn sign(&self) -> i32 {
        if self.neg {
            -1
        } else if self.is_zero() {
            0
        } else {
            1
        }
    }

    #[inline]
    pub fn neg(&self) -> Big {
        Big { neg: !self.neg && !self.is_zero(), mag: self.mag }
    }

    #[inline]
    pub fn abs(&self) -> Big {
        Big { neg: false, mag: self.mag }
    }

    #[inline]
    pub fn cmp_abs(&self, o: &Big) -> Ordering {
        for i in (0..N).rev() {
            if self.mag[i] != o.mag[i] {
                return self.mag[i].cmp(&o.mag[i]);
            }
        }
        Ordering::Equal
    }

    #[inline]
    fn add_mag(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
        let mut r = [0u64; N];
        let mut c = 0u64;
        for i in 0..N {
            let s = a[i] as u128 + b[i] as u128 + c as u128;
            r[i] = s as u64;
            c = (s >> 64) as u64;
        }
        assert!(c == 0, "Big: addition out of range");
        r
    }

    /// a >= b required
    #[inline]
    fn sub_mag(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
        let mut r = [0u64; N];
        let mut borrow = 0u128;
        for i in 0..N {
            let need = b[i] as u128 + borrow;
            let have = a[i] as u128;
            if have >= need {
                r[i] = (have - need) as u64;
                borrow = 0;
            } else {
                r[i] = ((1u128 << 64) + have - need) as u64;
                borrow = 1;
            }
        }
        assert!(borrow == 0, "Big: bad subtraction");
        r
    }

    #[inline]
    pub fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            Big { neg: self.neg, mag: Self::add_mag(&self.mag, &o.mag) }
        } else {
            match self.cmp_abs(o) {
                Ordering::Equal => Big::ZERO,
                Ordering::Greater => Big { neg: self.neg, mag: Self::sub_mag(&self.mag, &o.mag) },
                Ordering::Less => Big { neg: o.neg, mag: Self::sub_mag(&o.mag, &self.mag) },
            }
        }
    }

    #[inline]
    pub fn sub(&self, o: &Big) -> Big {
        self.add(&o.neg())
    }

    pub fn mul(&self, o: &Big) -> Big {
        let mut r = [0u64; N];
        for i in 0..N {
            if self.mag[i] == 0 {
                continue;
            }
            let mut carry = 0u128;
            for j in 0..N {
                if i + j >= N {
                    assert!(o.mag[j] == 0 && carry == 0, "Big: product out of range");
                    continue;
                }
                let t = self.mag[i] as u128 * o.mag[j] as u128 + r[i + j] as u128 + carry;
                r[i + j] = t as u64;
                carry = t >> 64;
            }
            assert!(carry == 0, "Big: product out of range");
        }
        let b = Big { neg: false, mag: r };
        if self.neg != o.neg {
            b.neg()
        } else {
            b
        }
    }

    pub fn dbl(&self) -> Big {
        self.add(self)
    }

    pub fn bits(&self) -> u32 {
        for i in (0..N).rev() {
            if self.mag[i] != 0 {
                return i as u32 * 64 + 64 - self.mag[i].leading_zeros();
            }
        }
        0
    }

    pub fn bit(&self, k: u32) -> bool {
        self.mag[(k / 64) as usize] >> (k % 64) & 1 == 1
    }

    pub fn shl(&self, k: u32) -> Big {
        let (w, s) = ((k / 64) as usize, k % 64);
        assert!(self.bits() + k <= 64 * N as u32, "Big: shift out of range");
        let mut mag = [0u64; N];
        for i in (w..N).rev() {
            mag[i] = self.mag[i - w] << s;
            if s > 0 && i > w {
                mag[i] |= self.mag[i - w - 1] >> (64 - s);
            }
        }
        Big { neg: self.neg, mag }
    }

    /// Truncating division of magnitudes, one bit at a time.
    fn divmod_mag(n: &Big, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero());
        let mut q = Big::ZERO;
        let mut r = Big::ZERO;
        for k in (0..n.bits()).rev() {
            r = r.shl(1);
            r.mag[0] |= n.bit(k) as u64;
            if r.cmp_abs(d) != Ordering::Less {
                r.mag = Self::sub_mag(&r.mag, &d.mag);
                q.mag[(k / 64) as usize] |= 1 << (k % 64);
            }
        }
        (q, r)
    }

    /// `(floor(n / d), n - d * floor(n / d))` for `d > 0`.
    pub fn floor_divmod(&self, d: &Big) -> (Big, Big) {
        assert!(d.sign() > 0);
        let (q, r) = Self::divmod_mag(&self.abs(), d);
        if !self.neg {
            (q, r)
        } else if r.is_zero() {
            (q.neg(), r)
        } else {
            (q.neg().sub(&Big::u(1)), d.sub(&r))
        }
    }

    pub fn to_i128(&self) -> Option<i128> {
        if self.bits() > 128 {
            return None;
        }
        let m = self.mag[0] as u128 | (self.mag[1] as u128) << 64;
        if self.neg {
            if m <= 1 << 127 {
                Some((m as i128).wrapping_neg())
            } else {
                None
            }
        } else {
            i128::try_from(m).ok()
        }
    }

    /// Decimal text; only used in reports and by the reference printer.
    pub fn dec(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut digits = vec![];
        let ten = Big::u(10);
        let mut x = self.abs();
        while !x.is_zero() {
            let (q, r) = Self::divmod_mag(&x, &ten);
            digits.push(b'0' + r.mag[0] as u8);
            x = q;
        }
        if self.neg {
            digits.push(b'-');
        }
        digits.reverse();
        String::from_utf8(digits).unwrap()
    }

    /// Floor of the square root of a non-negative number, bit by bit.
    pub fn isqrt(&self) -> Big {
        assert!(!self.neg);
        let mut r = Big::ZERO;
        let top = (self.bits() + 1) / 2;
        for k in (0..=top).rev() {
            let mut t = r;
            t.mag[(k / 64) as usize] |= 1 << (k % 64);
            if t.mul(&t).cmp_abs(self) != Ordering::Greater {
                r = t;
            }
        }
        r
    }
}

impl PartialOrd for Big {
    #[inline]
    fn partial_cmp(&self, o: &Big) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Ord for Big {
    #[inline]
    fn cmp(&self, o: &Big) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.cmp_abs(o),
            (true, true) => o.cmp_abs(self),
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn agrees_with_native() {
        let xs: Vec<i128> = (0..62)
            .flat_map(|k| [(1i128 << k) - 1, 1i128 << k, (1i128 << k) + 1])
            .flat_map(|x| [x, -x])
            .collect();
        for &a in &xs {
            for &b in &xs {
                let (x, y) = (Big::i(a), Big::i(b));
                assert_eq!(x.add(&y).to_i128(), Some(a + b));
                assert_eq!(x.sub(&y).to_i128(), Some(a - b));
                assert_eq!(x.mul(&y).to_i128(), Some(a * b));
                assert_eq!(x.cmp(&y), a.cmp(&b));
                if b > 0 {
                    let (q, r) = x.floor_divmod(&y);
                    assert_eq!((q.to_i128(), r.to_i128()), (Some(a.div_euclid(b)), Some(a.rem_euclid(b))));
                }
                assert_eq!(x.dec(), a.to_string());
            }
            if a >= 0 {
                let r = Big::i(a).isqrt().to_i128().unwrap();
                assert!(r * r <= a && (r + 1) * (r + 1) > a);
            }
        }
        assert_eq!(Big::i(i128::MIN).to_i128(), Some(i128::MIN));
        assert_eq!(Big::i(i128::MIN).neg().to_i128(), None);
        assert_eq!(Big::pow(10, 100).dec().len(), 101);
    }
}
