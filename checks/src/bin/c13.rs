//! C13: conversion from every primitive integer type.
use checks::{for_all_types, for_narrow_types, Fx};
use mc::lattice::{full, Set};
use mc::{Big, Check, Cx};
use std::sync::Arc;

const OUTCOMES: &[&str] = &["value", "error"];

/// A primitive integer type as a set of mathematical integers.
trait Src: Copy + Send + Sync + 'static {
    const NAME: &'static str;
    const BITS: u32;
    fn values(thorough: bool) -> Vec<Self>;
    fn big(self) -> Big;
    fn from_big(b: &Big) -> Option<Self>;
}

macro_rules! src {
    ($($t:ident $signed:literal)*) => { $(
        impl Src for $t {
            const NAME: &'static str = stringify!($t);
            const BITS: u32 = <$t>::BITS;
            fn values(thorough: bool) -> Vec<$t> {
                if <$t>::BITS <= 16 {
                    return (<$t>::MIN..=<$t>::MAX).collect();
                }
                let mut v: Vec<$t> = vec![];
                for x in full(128, 0) {
                    let b = Big::i(x);
                    for y in [b, b.add(&Big::i(i128::MAX))] {
                        v.extend(<$t as Src>::from_big(&y));
                    }
                }
                // bit patterns of the type itself: every shift of every short pattern
                for p in 1..=(if thorough { 255u128 } else { 15 }) {
                    for s in 0..<$t>::BITS {
                        v.push((p << s) as $t);
                        v.push(!((p << s) as $t));
                    }
                }
                v.sort();
                v.dedup();
                v
            }
            fn big(self) -> Big {
                if $signed { Big::i(self as i128) } else { Big::u(self as u128) }
            }
            fn from_big(b: &Big) -> Option<$t> {
                if *b < <$t as Src>::big(<$t>::MIN) || *b > <$t as Src>::big(<$t>::MAX) {
                    return None;
                }
                if let Some(x) = b.to_i128() {
                    return Some(x as $t);
                }
                // above i128::MAX: only u128 gets here
                let x = b.sub(&Big::i(i128::MAX)).sub(&Big::u(1)).to_i128().unwrap();
                Some((x as u128 + (1 << 127)) as $t)
            }
        }
    )* };
}
src!(i8 true u8 false i16 true u16 false i32 true u32 false i64 true u64 false i128 true u128 false isize true usize false);

#[inline(always)]
fn state<F: Fx + TryFrom<T>, T: Src>(v: T, cx: &mut Cx) {
    cx.states += 1;
    cx.traces += 1;
    let x = v.big();
    let want = x.mul(&Big::i(F::coef())).to_i128().filter(|x| *x >= F::lo() && *x <= F::hi());
    cx.at(|| format!("{} try_from {}{}", F::name(), x.dec(), T::NAME));
    let got = F::try_from(v).ok().map(|v: F| v.bits());
    cx.judge(
        got.is_none() as usize,
        got == want,
        || format!("{} try_from {}{}", F::name(), x.dec(), T::NAME),
        || format!("got {got:?}, model says {want:?}"),
    );
}

fn from<F: Fx + TryFrom<T>, T: Src>(chk: &mut Check) {
    let base = Arc::new(T::values(chk.thorough));
    // the limits of the target, seen from the source type, and values that only fit after wrapping
    let mut extra: Vec<T> = vec![];
    let mut s = Set::new(128);
    for lim in [F::lo(), F::hi(), F::lo() / F::coef(), F::hi() / F::coef()] {
        s.around(lim, 3);
    }
    for x in s.vec() {
        let x = Big::i(x);
        extra.extend(T::from_big(&x));
        for w in [16, 32, 64, 128] {
            let m = Big::pow(2, w);
            extra.extend(T::from_big(&x.add(&m)));
            extra.extend(T::from_big(&x.sub(&m)));
        }
    }
    let n = 256;
    let chunks = base.len().div_ceil(n);
    chk.job(format!("{} {}", T::NAME, F::name()), chunks as u64 + 1, move |i, cx| {
        let i = i as usize;
        let list: &[T] = if i == chunks { &extra } else { &base[i * n..base.len().min((i + 1) * n)] };
        for &v in list {
            state::<F, T>(v, cx);
        }
        cx.sample(|| format!("{}: {} values of {}, e.g. {}", F::name(), list.len(), T::NAME, list.first().map_or(String::new(), |x| x.big().dec())));
    });
}

fn types<F: Fx>(chk: &mut Check) {
    from::<F, i8>(chk);
    from::<F, u8>(chk);
    from::<F, i16>(chk);
    from::<F, u16>(chk);
    from::<F, i32>(chk);
    from::<F, u32>(chk);
    from::<F, i64>(chk);
    from::<F, u64>(chk);
    from::<F, i128>(chk);
    from::<F, u128>(chk);
    from::<F, isize>(chk);
    from::<F, usize>(chk);
}

fn main() {
    let mut c = Check::new("C13", OUTCOMES);
    c.rule(
        "states are (source type, value, target type); the transition is TryFrom on the real crate, compared with exact \
         multiplication by 10^P. 12 integer types x (73 types + 34 of a build without i128): all values of the 8 and \
         16-bit types; wider: boundary alphabets, shifted bit patterns, the limits of the target and the same values \
         shifted by 2^16..2^128 (which would fit if they wrapped).",
    );
    c.bound("i8, u8, i16, u16 sources: every value; wider sources: boundary alphabets and bit patterns");
    for_all_types!(types(&mut c));
    for_narrow_types!(types(&mut c));
    c.run()
}
