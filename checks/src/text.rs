//! Reference semantics of the text forms, written directly on digit strings.

use crate::Fx;
use mc::Big;

/// A small text buffer, so that printing can be observed without allocation.
pub struct Buf {
    pub b: [u8; 96],
    pub n: usize,
}
impl Buf {
    pub fn new() -> Buf {
        Buf { b: [0; 96], n: 0 }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.b[..self.n]
    }
    pub fn as_str(&self) -> &str {
        std::str::from_utf8(self.bytes()).unwrap_or("<not UTF-8>")
    }
}
impl Default for Buf {
    fn default() -> Self {
        Self::new()
    }
}
impl std::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.n + s.len() > self.b.len() {
            return Err(std::fmt::Error);
        }
        self.b[self.n..self.n + s.len()].copy_from_slice(s.as_bytes());
        self.n += s.len();
        Ok(())
    }
}

/// The canonical decimal form of `bits * 10^-p`.
pub fn canonical(bits: i128, p: u32) -> Buf {
    let mut d = [b'0'; 48]; // digits, least significant first
    let mut x = bits.unsigned_abs();
    let mut n = 0;
    while x > 0 {
        d[n] = b'0' + (x % 10) as u8;
        x /= 10;
        n += 1;
    }
    let p = p as usize;
    let n = n.max(p + 1); // at least one digit before the point
    let mut o = Buf::new();
    let mut put = |c: u8| {
        o.b[o.n] = c;
        o.n += 1;
    };
    if bits < 0 {
        put(b'-');
    }
    for i in (p..n).rev() {
        put(d[i]);
    }
    put(b'.');
    let mut low = 0; // trailing zeros of the fraction
    while low < p && d[low] == b'0' {
        low += 1;
    }
    if low == p {
        put(b'0');
    }
    for i in (low..p).rev() {
        put(d[i]);
    }
    o
}

/// What reading a text must give: (with rounding, exactly).
pub fn parse<F: Fx>(s: &str) -> (Option<i128>, Option<i128>) {
    parse_raw(s, F::P, F::lo(), F::hi())
}

pub fn parse_raw(s: &str, p: u32, lo: i128, hi: i128) -> (Option<i128>, Option<i128>) {
    const NONE: (Option<i128>, Option<i128>) = (None, None);
    let s = s.trim_matches(char::is_whitespace);
    let (neg, rest) = match s.as_bytes().first() {
        Some(b'-') => (true, &s[1..]),
        Some(b'+') => (false, &s[1..]),
        _ => (false, s),
    };
    let (int, frac) = match rest.find('.') {
        Some(i) => (&rest[..i], Some(&rest[i + 1..])),
        None => (rest, None),
    };
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit());
    if !digits(int) || frac.is_some_and(|f| !digits(f)) {
        return NONE;
    }
    let frac = frac.unwrap_or("").as_bytes();
    let int = int.trim_start_matches('0').as_bytes();
    if int.len() > 45 {
        return NONE;
    }
    let p = p as usize;
    let ten = Big::u(10);
    let mut v = Big::u(0);
    for i in 0..int.len() + p {
        let d = if i < int.len() { int[i] } else { *frac.get(i - int.len()).unwrap_or(&b'0') };
        v = v.mul(&ten).add(&Big::u((d - b'0') as u128));
    }
    let rest = frac.get(p..).unwrap_or(&[]);
    let exact = rest.iter().all(|d| *d == b'0');
    let up = rest.first().is_some_and(|d| *d >= b'5');
    let fit = |v: Big| {
        let v = if neg { v.neg() } else { v };
        v.to_i128().filter(|x| *x >= lo && *x <= hi)
    };
    let rounded = if up { v.add(&Big::u(1)) } else { v };
    (fit(rounded), if exact { fit(v) } else { None })
}
