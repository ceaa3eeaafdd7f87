//! C18: the SCALE codec.
use checks::{for_all_types, for_narrow_types, Fx};
use mc::lattice::full;
use mc::{Check, Cx};
use parity_scale_codec::{Compact, CompactAs, CompactRef, Decode, DecodeAll, Encode, EncodeLike, Error, Input, IoReader};
use std::collections::BTreeMap;

const OUTCOMES: &[&str] = &["encoded", "decoded", "decoding: error", "container"];

/// An input that cannot tell its length.
struct Blind<'a>(&'a [u8]);
impl Input for Blind<'_> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(None)
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        self.0.read(into)
    }
}

trait Scale: Fx + Encode + Decode + EncodeLike {
    type U: Encode + Decode + EncodeLike + Copy + PartialEq + std::fmt::Debug;
    /// the raw integer as unsigned
    fn u(a: i128) -> Self::U;
    fn signed(u: Self::U) -> i128;
    /// of a number and of its raw integer: compact bytes (three ways) and the reference they are made from
    fn compact(self) -> ([Vec<u8>; 3], [Vec<u8>; 2], Self::U);
    fn compact_small(self) -> (Vec<u8>, Vec<u8>);
    fn from_compact(b: &[u8]) -> (Option<(i128, usize)>, Option<(i128, usize)>);
    fn from_as(a: i128) -> Option<i128>;
    fn containers(a: i128, b: i128) -> (Vec<Vec<u8>>, Vec<Vec<u8>>);
    /// whether the containers decode to what was encoded
    fn contained(bytes: &[Vec<u8>], a: i128, b: i128) -> Option<usize>;
}

macro_rules! scale {
    ($k:ident: $($t:ident $u:ident)*) => { $(
        impl<P> Scale for $k::FixedPoint<$t, P>
        where
            P: $k::Precision + Send + Sync + 'static + Default + PartialEq + Eq + PartialOrd + Ord + std::hash::Hash,
        {
            type U = $u;
            fn u(a: i128) -> $u { a as $t as $u }
            fn signed(u: $u) -> i128 { u as $t as i128 }
            fn compact(self) -> ([Vec<u8>; 3], [Vec<u8>; 2], $u) {
                let u = Self::u(self.bits());
                let mut out = vec![1, 2];
                Compact(self).encode_to(&mut out);
                ([Compact(self).encode(), CompactRef(&self).encode(), out[2..].to_vec()], [Compact(u).encode(), CompactRef(&u).encode()], *self.encode_as())
            }
            fn compact_small(self) -> (Vec<u8>, Vec<u8>) {
                (Compact(self).encode(), Compact(Self::u(self.bits())).encode())
            }
            fn from_compact(b: &[u8]) -> (Option<(i128, usize)>, Option<(i128, usize)>) {
                let mut i = b;
                let got = Compact::<Self>::decode(&mut i).ok().map(|c| (Self::from(c).bits(), i.len()));
                let mut i = b;
                let want = Compact::<$u>::decode(&mut i).ok().map(|c| (c.0 as $t as i128, i.len()));
                (got, want)
            }
            fn from_as(a: i128) -> Option<i128> {
                Self::decode_from(Self::u(a)).ok().map(Fx::bits)
            }
            fn containers(a: i128, b: i128) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
                let (x, y) = (Self::of(a), Self::of(b));
                let (u, v) = (Self::u(a), Self::u(b));
                (vec![
                    vec![x, y, x].encode(),
                    [x, y].encode(),
                    (Some(x), None::<Self>, Some(Some(y))).encode(),
                    (1u8, x, true, y).encode(),
                    BTreeMap::from([(x, y), (y, x)]).encode(),
                    vec![Compact(x), Compact(y)].encode(),
                    (Ok::<Self, u8>(x), Err::<u8, Self>(y), Box::new(x)).encode(),
                    [x, y][..].encode(),
                    (&x, std::rc::Rc::new(y)).encode(),
                ], vec![
                    vec![u, v, u].encode(),
                    [u, v].encode(),
                    (Some(u), None::<$u>, Some(Some(v))).encode(),
                    (1u8, u, true, v).encode(),
                    {
                        // in the order of the numbers, not of the unsigned integers
                        let m = BTreeMap::from([(u as $t, v as $t), (v as $t, u as $t)]);
                        m.encode()
                    },
                    vec![Compact(u), Compact(v)].encode(),
                    (Ok::<$u, u8>(u), Err::<u8, $u>(v), Box::new(u)).encode(),
                    [u, v][..].encode(),
                    (&u, std::rc::Rc::new(v)).encode(),
                ])
            }
            fn contained(e: &[Vec<u8>], a: i128, b: i128) -> Option<usize> {
                let (x, y) = (Self::of(a), Self::of(b));
                let ok = [
                    Vec::<Self>::decode_all(&mut &e[0][..]) == Ok(vec![x, y, x]),
                    <[Self; 2]>::decode_all(&mut &e[1][..]) == Ok([x, y]),
                    <(Option<Self>, Option<Self>, Option<Option<Self>>)>::decode_all(&mut &e[2][..]) == Ok((Some(x), None, Some(Some(y)))),
                    <(u8, Self, bool, Self)>::decode_all(&mut &e[3][..]) == Ok((1, x, true, y)),
                    BTreeMap::<Self, Self>::decode_all(&mut &e[4][..]) == Ok(BTreeMap::from([(x, y), (y, x)])),
                    Vec::<Compact<Self>>::decode_all(&mut &e[5][..]) == Ok(vec![Compact(x), Compact(y)]),
                    <(Result<Self, u8>, Result<u8, Self>, Box<Self>)>::decode_all(&mut &e[6][..]) == Ok((Ok(x), Err(y), Box::new(x))),
                    Vec::<Self>::decode_all(&mut &e[7][..]) == Ok(vec![x, y]),
                    <(Self, std::rc::Rc<Self>)>::decode_all(&mut &e[8][..]) == Ok((x, std::rc::Rc::new(y))),
                ];
                ok.iter().position(|ok| !ok)
            }
        }
    )* };
}
scale!(fixnum: i16 u16 i32 u32 i64 u64 i128 u128);
scale!(fixnum_narrow: i16 u16 i32 u32 i64 u64);

fn encode<F: Scale>(a: i128, cx: &mut Cx) {
    let x = F::of(a);
    let n = (F::BITS / 8) as usize;
    let want = a.to_le_bytes()[..n].to_vec();
    let name = || format!("{} bits {a}", F::name());
    cx.at(|| format!("encode {}", name()));
    let mut out = vec![9];
    x.encode_to(&mut out);
    let got = [x.encode(), x.using_encoded(|b| b.to_vec()), out[1..].to_vec(), (&x).encode()];
    cx.judge(0, got.iter().all(|g| *g == want), || format!("encode {}", name()), || format!("got {got:02x?}, should be {want:02x?}"));
    let size = x.encoded_size();
    cx.judge(0, size == n, || format!("encoded size of {}", name()), || format!("got {size}, should be {n}"));
    // what the type says about its size without a value
    let fixed = [(F::encoded_fixed_size(), n), (<[F; 3]>::encoded_fixed_size(), 3 * n)];
    let ok = fixed.iter().all(|(f, n)| f.is_none_or(|f| f == *n));
    cx.judge(0, ok, || format!("fixed encoded size of {}", F::name()), || format!("got and should be, if any: {fixed:?}"));
    // fixed-width: the whole, every truncation, and followed by something
    decode::<F>(&want, cx);
    for k in 0..n {
        decode::<F>(&want[..k], cx);
    }
    let more: Vec<u8> = want.iter().chain(&[0x5a, 0xa5]).copied().collect();
    decode::<F>(&more, cx);
    // compact
    let (got, want, by_ref) = x.compact();
    cx.judge(0, by_ref == F::u(a), || format!("encode_as of {}", name()), || format!("got {by_ref:?}"));
    let from = F::from_as(a);
    cx.judge(1, from == Some(a), || format!("decode_from of {}", name()), || format!("got {from:?}"));
    let ok = got.iter().all(|g| *g == want[0]) && want[0] == want[1];
    cx.judge(0, ok, || format!("compact encoding of {}", name()), || format!("got {got:02x?}, should be {want:02x?}"));
    let b = &want[0];
    let back = F::from_compact(b).0;
    cx.judge(1, back == Some((a, 0)), || format!("compact decoding of {}", name()), || format!("{b:02x?} gave {back:?}"));
    for k in 0..b.len() {
        compact::<F>(&b[..k], cx);
    }
    let more: Vec<u8> = b.iter().chain(&[0x5a, 0xa5]).copied().collect();
    compact::<F>(&more, cx);
}

/// Fixed-width decoding of any byte string: the first bytes are the number, the rest stays.
fn decode<F: Scale>(b: &[u8], cx: &mut Cx) {
    let n = (F::BITS / 8) as usize;
    cx.at(|| format!("{} from {b:02x?}", F::name()));
    let want = (b.len() >= n).then(|| {
        let mut w = [0u8; 16];
        w[..n].copy_from_slice(&b[..n]);
        let u = u128::from_le_bytes(w);
        let sign = if F::BITS < 128 && u >> (F::BITS - 1) == 1 { !0 << F::BITS } else { 0 };
        ((u | sign) as i128, b.len() - n)
    });
    let mut i = b;
    let plain = F::decode(&mut i).ok().map(|x| (x.bits(), i.len()));
    let mut blind = Blind(b);
    let blindly = F::decode(&mut blind).ok().map(|x| (x.bits(), blind.0.len()));
    let mut io = IoReader(b);
    let read = F::decode(&mut io).ok().map(|x| (x.bits(), io.0.len()));
    let mut i = b;
    let skipped = F::skip(&mut i).is_ok();
    let got = [plain, blindly, read];
    cx.judge(
        1 + plain.is_none() as usize,
        got.iter().all(|g| *g == want) && skipped == want.is_some() && (!skipped || i.len() == want.unwrap().1),
        || format!("decode {} from {b:02x?}", F::name()),
        || format!("got {got:?}, skip {skipped} leaves {}, should be {want:?}", i.len()),
    );
    let all = F::decode_all(&mut &b[..]).ok().map(|x| x.bits());
    let want = want.filter(|w| w.1 == 0).map(|w| w.0);
    cx.judge(1, all == want, || format!("decode all of {} from {b:02x?}", F::name()), || format!("got {all:?}, should be {want:?}"));
}

/// Compact decoding of any byte string: as the unsigned integer does.
fn compact<F: Scale>(b: &[u8], cx: &mut Cx) {
    cx.at(|| format!("{} from compact {b:02x?}", F::name()));
    let (got, want) = F::from_compact(b);
    cx.judge(1 + got.is_none() as usize, got == want, || format!("decode {} from compact {b:02x?}", F::name()), || format!("got {got:?}, should be {want:?}"));
}

fn rows<F: Fx>() -> Vec<i128> {
    if F::BITS == 16 {
        (F::lo()..=F::hi()).collect()
    } else {
        full(F::BITS, F::P)
    }
}

fn values<F: Scale>(chk: &mut Check) {
    let rows = rows::<F>();
    let per = 256;
    chk.job(format!("values {}", F::name()), rows.len().div_ceil(per) as u64, move |i, cx| {
        for (k, &a) in rows.iter().enumerate().skip(i as usize * per).take(per) {
            cx.states += 1;
            cx.traces += 1;
            encode::<F>(a, cx);
            let b = rows[(k * 7 + 3) % rows.len()];
            let name = || format!("{} containers of bits {a} and {b}", F::name());
            cx.at(name);
            let (got, want) = F::containers(a, b);
            cx.judge(3, got == want, || format!("encode {}", name()), || format!("got {got:02x?}, should be {want:02x?}"));
            let bad = F::contained(&want, a, b);
            cx.judge(3, bad.is_none(), || format!("decode {}", name()), || format!("container {bad:?} differs"));
        }
        cx.sample(|| format!("{}: {per} numbers, fixed and compact, every truncation, nine containers", F::name()));
    });
}

/// A boundary alphabet of raw integers for every compact form: one, two and four bytes, and the big one.
fn forms<F: Scale>(chk: &mut Check) {
    chk.job(format!("forms {}", F::name()), 1, move |_, cx| {
        let mut us: Vec<u128> = vec![];
        for e in [6u32, 14, 30, 32, 40, 48, 56, 64, 72, 80, 88, 96, 104, 112, 120, 127, 128] {
            let p = if e == 128 { 0 } else { 1u128 << e };
            us.extend((-3i128..=3).map(|d| p.wrapping_add(d as u128)));
        }
        for u in us {
            if F::BITS < 128 && u >> F::BITS != 0 {
                continue;
            }
            cx.states += 1;
            cx.traces += 1;
            let s = 128 - F::BITS;
            encode::<F>(((u << s) as i128) >> s, cx);
        }
    });
}

/// Every short byte string, and longer patterns, as inputs.
fn inputs<F: Scale>(chk: &mut Check) {
    let thorough = chk.thorough;
    chk.job(format!("inputs {}", F::name()), 256, move |i, cx| {
        let a = i as u8;
        let mut one = |v: &[u8]| {
            cx.states += 1;
            cx.traces += 1;
            decode::<F>(v, cx);
            compact::<F>(v, cx);
        };
        if i == 0 {
            one(&[]);
        }
        one(&[a]);
        for b in 0..=255u8 {
            one(&[a, b]);
            if thorough {
                for c in 0..=255u8 {
                    one(&[a, b, c]);
                }
            }
        }
        for len in 3..=20 {
            for fill in [0u8, 1, 0x3f, 0x40, 0x7f, 0x80, 0xff] {
                for last in [0u8, 1, 0x3f, 0x40, 0x7f, 0x80, 0xff] {
                    let mut v = vec![fill; len];
                    v[0] = a;
                    v[len - 1] = last;
                    one(&v);
                }
            }
        }
        // canonical first bytes of the big form, with every last byte
        for len in [5usize, 9, 17] {
            for last in 0..=255u8 {
                let mut v = vec![0u8; len];
                v[0] = a;
                v[len - 1] = last;
                one(&v);
            }
        }
        cx.sample(|| format!("{}: inputs that start with byte {a:02x}", F::name()));
    });
}

/// Every 32-bit number, and every four-byte input of the compact decoder.
fn all32<F: Scale>(chk: &mut Check) {
    chk.job(format!("all32 {}", F::name()), 1 << 16, move |i, cx| {
        let mut last = [0u8; 4];
        for k in 0..1u64 << 16 {
            let a = F::lo() + ((i << 16) + k) as i128;
            cx.states += 1;
            cx.traces += 1;
            for o in [0, 1, 0, 1] {
                cx.step(o);
            }
            let (x, bytes) = (F::of(a), (a as i32).to_le_bytes());
            last = bytes;
            let ok = x.using_encoded(|b| b == bytes) && F::decode(&mut &bytes[..]).is_ok_and(|y| y.bits() == a);
            let (got, want) = x.compact_small();
            let back = F::from_compact(&got).0 == Some((a, 0));
            let (g, w) = F::from_compact(&bytes);
            if !(ok && got == want && back && g == w) {
                encode::<F>(a, cx);
                compact::<F>(&bytes, cx);
            }
        }
        cx.sample(|| format!("{}: 65536 numbers up to {last:02x?} and as compact inputs", F::name()));
    });
}

fn main() {
    let mut c = Check::new("C18", OUTCOMES);
    c.rule(
        "states are numbers and byte strings; transitions are the real encoder and decoder: fixed and compact, by value, by reference, into \
         an output, from slices, readers and inputs of unknown length, in nine containers. The oracle is the two's complement \
         written out byte by byte, and for the compact form the codec of the unsigned integer itself.",
    );
    c.bound("numbers: every 16-bit value, boundary alphabets of all 107 types, the limits of every compact form; every truncation of every encoding");
    c.bound("inputs: all byte strings up to 2 bytes (thorough 3; 9 types), thorough: all numbers and all four-byte inputs of i32; every first byte x lengths to 20 x patterns");
    c.assume("parity-scale-codec handles unsigned integers and containers correctly");
    for_all_types!(values(&mut c));
    for_narrow_types!(values(&mut c));
    for_all_types!(forms(&mut c));
    for_narrow_types!(forms(&mut c));
    checks_io::for_some_types!(inputs(&mut c));
    if c.thorough {
        all32::<fixnum::FixedPoint<i32, fixnum::typenum::U5>>(&mut c);
    }
    c.run()
}
