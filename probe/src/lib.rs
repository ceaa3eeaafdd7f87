//! Uses everything the crate documents for the features it was compiled with. Facts about types
//! are decided by the compiler's trait resolution and asserted in constants.
#![no_std]
#![allow(dead_code, clippy::all)]

use core::marker::PhantomData;

struct Q<A>(PhantomData<A>);
macro_rules! fact {
    ($no:ident $name:ident: $($bound:tt)*) => {
        trait $no { const $name: bool = false; }
        impl<A> $no for Q<A> {}
        impl<A> Q<A> where $($bound)* { const $name: bool = true; }
    };
}
fact!(NoArith ARITH: A: fixnum::ops::RoundingMul + fixnum::ops::RoundingDiv + fixnum::ops::CheckedAdd + fixnum::ops::CheckedSub + fixnum::ops::Bounded + fixnum::ops::Zero + fixnum::ops::One);
fact!(NoText TEXT: A: core::str::FromStr<Err = fixnum::ConvertError> + core::fmt::Display + core::fmt::Debug);
fact!(NoConv CONV: A: TryFrom<u8> + TryFrom<i16> + TryFrom<u32> + TryFrom<i64> + TryFrom<u128> + TryFrom<isize> + TryFrom<f64>, f64: From<A>);
fact!(NoErr ERR: A: core::error::Error);
#[cfg(feature = "serde")]
fact!(NoSerde SERDE: A: serde::Serialize + for<'a> serde::Deserialize<'a>);
#[cfg(feature = "schemars")]
fact!(NoSchema SCHEMA: A: schemars::JsonSchema);
#[cfg(feature = "parity")]
fact!(NoScale SCALE: A: parity_scale_codec::Encode + parity_scale_codec::Decode + parity_scale_codec::EncodeLike + parity_scale_codec::CompactAs + From<parity_scale_codec::Compact<A>>);

const ANY_WIDTH: () = assert!(cfg!(any(feature = "i16", feature = "i32", feature = "i64", feature = "i128")), "no width is enabled, and yet the crate compiles");

#[cfg(any(feature = "std", feature = "dflt"))]
const ERRORS: () = assert!(Q::<fixnum::ArithmeticError>::ERR && Q::<fixnum::ConvertError>::ERR);

macro_rules! width {
    ($feature:literal $m:ident $t:ident $p:ident $n:literal) => {
        const _: () = {
            type F = fixnum::FixedPoint<$t, fixnum::typenum::$p>;
            assert!(Q::<F>::ARITH == cfg!(feature = $feature));
            assert!(Q::<F>::TEXT == cfg!(feature = $feature));
            assert!(Q::<F>::CONV == cfg!(feature = $feature));
        };
        #[cfg(all(feature = $feature, feature = "serde"))]
        const _: () = assert!(Q::<fixnum::FixedPoint<$t, fixnum::typenum::$p>>::SERDE);
        #[cfg(all(feature = $feature, feature = "schemars"))]
        const _: () = assert!(Q::<fixnum::FixedPoint<$t, fixnum::typenum::$p>>::SCHEMA);
        #[cfg(all(feature = $feature, feature = "parity"))]
        const _: () = assert!(Q::<fixnum::FixedPoint<$t, fixnum::typenum::$p>>::SCALE);

        #[cfg(feature = $feature)]
        pub mod $m {
            use fixnum::ops::{Bounded, CheckedAdd, CheckedMul, CheckedSub, One, RoundMode, RoundingDiv, RoundingMul, Zero};
            use fixnum::{fixnum, fixnum_const, impl_op, ArithmeticError, ConvertError, FixedPoint};

            pub type F = FixedPoint<$t, fixnum::typenum::$p>;

            // constants and literals
            pub const X: F = fixnum_const!(-1.5, $n);
            pub static S: [F; 4] = [F::ZERO, F::ONE, F::MIN, F::MAX];
            const _: () = assert!(*X.as_bits() == *F::ONE.as_bits() / 2 * -3);
            const _: () = assert!(*F::EPSILON.as_bits() == 1 && F::PRECISION == $n);
            const _: () = assert!(core::mem::size_of::<F>() == core::mem::size_of::<$t>());

            pub fn arithmetic(a: F, b: F, k: $t, m: RoundMode) -> Result<F, ArithmeticError> {
                let mut x: F = a.cadd(b)?.csub(a)?.cmul(k)?;
                x = x.rmul(b, m)?.rdiv(a, m)?.rdiv(k, m)?;
                x = k.cmul(x)?;
                x = k.rdiv(x, m)?;
                x = x.recip(m)?.cneg()?.abs()?.rsqrt(m)?.next_power_of_ten()?;
                x = F::half_sum(x, a, m).floor().ceil().round().round_towards_zero_by(b);
                x = x.saturating_add(a).saturating_sub(b).saturating_mul(k).saturating_rmul(b, m);
                x = CheckedMul::<F>::saturating_mul(k, x);
                let _: $t = x.signum() + x.integral(m);
                let _: $t = k.cadd(k)?.csub(k)?.cmul(k)?.rdiv(k, m)?;
                let _: (i8, i16, i32, i64, i128) = (1i8.cadd(1)?, 1i16.csub(1)?, 1i32.cmul(1)?, 1i64.rdiv(1, m)?, 1i128.saturating_add(1));
                Ok(x)
            }
            pub fn conversions(s: &str, f: f64) -> Result<(F, $t, f64), ConvertError> {
                let x: F = s.parse()?;
                let y = F::from_str_exact(s)?;
                let z = F::from_decimal(F::default().into_bits(), -1)?;
                let (m, _): ($t, i32) = x.to_decimal(0);
                let _ = (F::try_from(1i8)?, F::try_from(1u16)?, F::try_from(1i32)?, F::try_from(1u64)?, F::try_from(1i128)?, F::try_from(1usize)?);
                let _ = F::try_from(f)?;
                let _: F = fixnum!(1, $n);
                Ok((x.max(y).min(z), m, x.into()))
            }

            #[derive(Clone, Copy)]
            pub struct Size(i8);
            #[derive(Clone, Copy)]
            pub struct Price(F);
            #[derive(Clone, Copy)]
            pub struct Ratio(F);
            impl From<i8> for Size { fn from(x: i8) -> Self { Size(x) } }
            impl From<F> for Price { fn from(x: F) -> Self { Price(x) } }
            impl From<F> for Ratio { fn from(x: F) -> Self { Ratio(x) } }
            impl_op!(Size [cadd] Size = Size);
            impl_op!(Size [csub] Size = Size);
            impl_op!(Size [cmul] Price = Price);
            impl_op!(Price [cadd] Price = Price);
            impl_op!(Price [csub] Price = Price);
            impl_op!(Price [rmul] Ratio = Price);
            impl_op!(Price [rdiv] Price = Ratio);
            pub fn wrappers(n: Size, p: Price, m: RoundMode) -> Result<Price, ArithmeticError> {
                let r: Ratio = p.rdiv(p, m)?;
                n.cadd(n)?.csub(n)?.cmul(p)?.cadd(p)?.csub(fixnum!(0.5, $n))?.rmul(r, m)
            }

            #[cfg(feature = "serde")]
            pub mod serialize {
                use super::F;
                use serde::{Deserializer, Serializer};
                pub fn put<S: Serializer + Copy>(x: &F, o: &Option<F>, s: S) -> Result<S::Ok, S::Error> {
                    fixnum::serde::repr::serialize(x, s)?;
                    fixnum::serde::str::serialize(x, s)?;
                    fixnum::serde::float::serialize(x, s)?;
                    fixnum::serde::repr_option::serialize(o, s)?;
                    fixnum::serde::str_option::serialize(o, s)?;
                    fixnum::serde::float_option::serialize(o, s)
                }
                pub fn get<'a, D: Deserializer<'a> + Copy>(d: D) -> Result<(F, Option<F>), D::Error> {
                    let _: F = fixnum::serde::repr::deserialize(d)?;
                    let _: F = fixnum::serde::str::deserialize(d)?;
                    let x: F = fixnum::serde::float::deserialize(d)?;
                    let _: Option<F> = fixnum::serde::repr_option::deserialize(d)?;
                    let _: Option<F> = fixnum::serde::str_option::deserialize(d)?;
                    let o: Option<F> = fixnum::serde::float_option::deserialize(d)?;
                    Ok((x, o))
                }
            }
        }
    };
}
width!("i16" w16 i16 U2 2);
width!("i32" w32 i32 U4 4);
width!("i64" w64 i64 U9 9);
width!("i128" w128 i128 U18 18);
