//! Binds the reference model to the real crate: one uniform interface over all the fixed-point
//! types, using only the crate's public API.
#![allow(clippy::missing_safety_doc)]

use mc::model::Wide;
use mc::{Mode, Out};

/// The plain integer types the crate implements its operations for.
pub trait PlainInt: Copy + Send + Sync + 'static {
    type Wide: Wide;
    const BITS: u32;
    const NAME: &'static str;
    fn of(x: i128) -> Self;
    fn to(self) -> i128;
    fn cadd(a: Self, b: Self) -> Out;
    fn csub(a: Self, b: Self) -> Out;
    fn cmul(a: Self, b: Self) -> Out;
    fn sadd(a: Self, b: Self) -> i128;
    fn ssub(a: Self, b: Self) -> i128;
    fn smul(a: Self, b: Self) -> i128;
    fn rdiv(a: Self, b: Self, m: Mode) -> Out;
    fn consts() -> [i128; 4];
}

/// A fixed-point type of the crate, seen through its raw representation.
pub trait Fx:
    Copy
    + Send
    + Sync
    + 'static
    + Default
    + PartialEq
    + Eq
    + PartialOrd
    + Ord
    + std::hash::Hash
    + std::fmt::Display
    + std::fmt::Debug
    + std::str::FromStr
    + TryFrom<f64>
    + Into<f64>
    + TryFrom<i8>
    + TryFrom<u8>
    + TryFrom<i16>
    + TryFrom<u16>
    + TryFrom<i32>
    + TryFrom<u32>
    + TryFrom<i64>
    + TryFrom<u64>
    + TryFrom<i128>
    + TryFrom<u128>
    + TryFrom<isize>
    + TryFrom<usize>
{
    type Int: PlainInt<Wide = Self::Wide>;
    type Wide: Wide;
    const BITS: u32;
    const P: u32;
    /// PRECISION, ZERO, ONE, MIN, MAX, EPSILON as the crate defines them
    fn consts() -> [i128; 6];
    fn of(bits: i128) -> Self;
    fn bits(self) -> i128;
    /// bits through the two borrowing/consuming accessors
    fn bits2(self) -> (i128, i128);
    fn cadd(self, b: Self) -> Out;
    fn csub(self, b: Self) -> Out;
    fn cmul_int(self, b: i128) -> Out;
    fn int_cmul(a: i128, b: Self) -> Out;
    fn cneg(self) -> Out;
    fn abs(self) -> Out;
    fn sadd(self, b: Self) -> i128;
    fn ssub(self, b: Self) -> i128;
    fn smul_int(self, b: i128) -> i128;
    fn int_smul(a: i128, b: Self) -> i128;
    fn rmul(self, b: Self, m: Mode) -> Out;
    fn srmul(self, b: Self, m: Mode) -> i128;
    fn rdiv(self, b: Self, m: Mode) -> Out;
    fn rdiv_int(self, b: i128, m: Mode) -> Out;
    fn int_rdiv(a: i128, b: Self, m: Mode) -> Out;
    fn recip(self, m: Mode) -> Out;
    fn rsqrt(self, m: Mode) -> Out;
    fn half_sum(self, b: Self, m: Mode) -> i128;
    fn integral(self, m: Mode) -> i128;
    fn floor(self) -> i128;
    fn ceil(self) -> i128;
    fn round(self) -> i128;
    fn rtz_by(self, b: Self) -> i128;
    fn npt(self) -> Out;
    fn signum(self) -> i128;
    fn from_decimal(m: i128, e: i32) -> Option<i128>;
    fn to_decimal(self, max_e: i32) -> (i128, i32);
    fn parse(s: &str) -> Option<i128>;
    fn parse_exact(s: &str) -> Option<i128>;

    fn lo() -> i128 {
        mc::model::min_of(Self::BITS)
    }
    fn hi() -> i128 {
        mc::model::max_of(Self::BITS)
    }
    fn coef() -> i128 {
        mc::model::pow10(Self::P)
    }
    /// which build of the crate the type comes from
    const BUILD: &'static str;
    fn name() -> String {
        let b = if Self::BUILD == "full" { String::new() } else { format!("{}::", Self::BUILD) };
        format!("{b}FixedPoint<i{},U{}>", Self::BITS, Self::P)
    }
    fn w(x: i128) -> Self::Wide {
        Self::Wide::of(x)
    }
}

/// Implements the uniform interface for one build of the crate under test.
#[macro_export]
macro_rules! bind {
    ($k:ident as $m:ident: $($t:ident $w:ty),*; ints: $($pt:ident $pw:ty),*) => {
    pub mod $m {
    #![allow(unused_imports)]
    use $crate::{Fx, PlainInt};
    use mc::{Big, Mode, Out};
    use $k::ops::*;

    pub fn rm(m: Mode) -> RoundMode {
        match m {
            Mode::Floor => RoundMode::Floor,
            Mode::Nearest => RoundMode::Nearest,
            Mode::Ceil => RoundMode::Ceil,
        }
    }

    pub fn arith(e: $k::ArithmeticError) -> Out {
        match e {
            $k::ArithmeticError::Overflow => Out::Overflow,
            $k::ArithmeticError::DivisionByZero => Out::DivZero,
            $k::ArithmeticError::DomainViolation => Out::Domain,
            _ => Out::Other,
        }
    }

    #[inline]
    pub fn out<F: Fx>(r: Result<F, $k::ArithmeticError>) -> Out {
        match r {
            Ok(v) => Out::Val(v.bits()),
            Err(e) => arith(e),
        }
    }

    $(
        impl PlainInt for $pt {
            type Wide = $pw;
            const BITS: u32 = <$pt>::BITS;
            const NAME: &'static str = stringify!($pt);
            #[inline]
            fn of(x: i128) -> Self { x as $pt }
            #[inline]
            fn to(self) -> i128 { self as i128 }
            #[inline]
            fn cadd(a: Self, b: Self) -> Out { CheckedAdd::cadd(a, b).map_or_else(arith, |v| Out::Val(v as i128)) }
            #[inline]
            fn csub(a: Self, b: Self) -> Out { CheckedSub::csub(a, b).map_or_else(arith, |v| Out::Val(v as i128)) }
            #[inline]
            fn cmul(a: Self, b: Self) -> Out { CheckedMul::cmul(a, b).map_or_else(arith, |v| Out::Val(v as i128)) }
            #[inline]
            fn sadd(a: Self, b: Self) -> i128 { CheckedAdd::saturating_add(a, b) as i128 }
            #[inline]
            fn ssub(a: Self, b: Self) -> i128 { CheckedSub::saturating_sub(a, b) as i128 }
            #[inline]
            fn smul(a: Self, b: Self) -> i128 { CheckedMul::saturating_mul(a, b) as i128 }
            #[inline]
            fn rdiv(a: Self, b: Self, m: Mode) -> Out {
                RoundingDiv::rdiv(a, b, rm(m)).map_or_else(arith, |v| Out::Val(v as i128))
            }
            fn consts() -> [i128; 4] {
                [
                    <$pt as Zero>::ZERO as i128,
                    <$pt as One>::ONE as i128,
                    <$pt as Bounded>::MIN as i128,
                    <$pt as Bounded>::MAX as i128,
                ]
            }
        }
    )*
    $(
        impl<P> Fx for $k::FixedPoint<$t, P>
        where
            P: $k::Precision + Send + Sync + 'static + Default + PartialEq + Eq + PartialOrd + Ord + std::hash::Hash,
        {
            type Int = $t;
            type Wide = $w;
            const BUILD: &'static str = stringify!($m);
            const BITS: u32 = <$t>::BITS;
            const P: u32 = <P as $k::typenum::Unsigned>::U32;
            fn consts() -> [i128; 6] {
                [
                    Self::PRECISION as i128,
                    *Self::ZERO.as_bits() as i128,
                    *Self::ONE.as_bits() as i128,
                    *Self::MIN.as_bits() as i128,
                    *Self::MAX.as_bits() as i128,
                    *Self::EPSILON.as_bits() as i128,
                ]
            }
            #[inline(always)]
            fn of(bits: i128) -> Self { Self::from_bits(bits as $t) }
            #[inline(always)]
            fn bits(self) -> i128 { *self.as_bits() as i128 }
            fn bits2(self) -> (i128, i128) { (*self.as_bits() as i128, self.into_bits() as i128) }
            #[inline]
            fn cadd(self, b: Self) -> Out { out(CheckedAdd::cadd(self, b)) }
            #[inline]
            fn csub(self, b: Self) -> Out { out(CheckedSub::csub(self, b)) }
            #[inline]
            fn cmul_int(self, b: i128) -> Out { out(CheckedMul::cmul(self, b as $t)) }
            #[inline]
            fn int_cmul(a: i128, b: Self) -> Out { out(CheckedMul::cmul(a as $t, b)) }
            #[inline]
            fn cneg(self) -> Out { out($k::FixedPoint::<$t, P>::cneg(self)) }
            #[inline]
            fn abs(self) -> Out { out($k::FixedPoint::<$t, P>::abs(self)) }
            #[inline]
            fn sadd(self, b: Self) -> i128 { CheckedAdd::saturating_add(self, b).bits() }
            #[inline]
            fn ssub(self, b: Self) -> i128 { CheckedSub::saturating_sub(self, b).bits() }
            #[inline]
            fn smul_int(self, b: i128) -> i128 { CheckedMul::saturating_mul(self, b as $t).bits() }
            #[inline]
            fn int_smul(a: i128, b: Self) -> i128 { CheckedMul::saturating_mul(a as $t, b).bits() }
            #[inline]
            fn rmul(self, b: Self, m: Mode) -> Out { out(RoundingMul::rmul(self, b, rm(m))) }
            #[inline]
            fn srmul(self, b: Self, m: Mode) -> i128 { RoundingMul::saturating_rmul(self, b, rm(m)).bits() }
            #[inline]
            fn rdiv(self, b: Self, m: Mode) -> Out { out(RoundingDiv::rdiv(self, b, rm(m))) }
            #[inline]
            fn rdiv_int(self, b: i128, m: Mode) -> Out { out(RoundingDiv::rdiv(self, b as $t, rm(m))) }
            #[inline]
            fn int_rdiv(a: i128, b: Self, m: Mode) -> Out { out(RoundingDiv::rdiv(a as $t, b, rm(m))) }
            #[inline]
            fn recip(self, m: Mode) -> Out { out($k::FixedPoint::<$t, P>::recip(self, rm(m))) }
            #[inline]
            fn rsqrt(self, m: Mode) -> Out { out($k::FixedPoint::<$t, P>::rsqrt(self, rm(m))) }
            #[inline]
            fn half_sum(self, b: Self, m: Mode) -> i128 { $k::FixedPoint::<$t, P>::half_sum(self, b, rm(m)).bits() }
            #[inline]
            fn integral(self, m: Mode) -> i128 { $k::FixedPoint::<$t, P>::integral(self, rm(m)) as i128 }
            #[inline]
            fn floor(self) -> i128 { $k::FixedPoint::<$t, P>::floor(self).bits() }
            #[inline]
            fn ceil(self) -> i128 { $k::FixedPoint::<$t, P>::ceil(self).bits() }
            #[inline]
            fn round(self) -> i128 { $k::FixedPoint::<$t, P>::round(self).bits() }
            #[inline]
            fn rtz_by(self, b: Self) -> i128 { $k::FixedPoint::<$t, P>::round_towards_zero_by(self, b).bits() }
            #[inline]
            fn npt(self) -> Out { out($k::FixedPoint::<$t, P>::next_power_of_ten(self)) }
            #[inline]
            fn signum(self) -> i128 { $k::FixedPoint::<$t, P>::signum(self) as i128 }
            #[inline]
            fn from_decimal(m: i128, e: i32) -> Option<i128> {
                $k::FixedPoint::<$t, P>::from_decimal(m as $t, e).ok().map(|v| v.bits())
            }
            #[inline]
            fn to_decimal(self, max_e: i32) -> (i128, i32) {
                let (m, e) = $k::FixedPoint::<$t, P>::to_decimal(&self, max_e);
                (m as i128, e)
            }
            #[inline]
            fn parse(s: &str) -> Option<i128> { s.parse::<Self>().ok().map(|v| v.bits()) }
            #[inline]
            fn parse_exact(s: &str) -> Option<i128> { Self::from_str_exact(s).ok().map(|v| v.bits()) }
        }
    )*
    }
    };
}

bind!(fixnum as full: i16 i64, i32 i128, i64 i128, i128 Big; ints: i8 i64, i16 i64, i32 i128, i64 i128, i128 Big);

// the same crate built without the `i128` feature (other buffer sizes, other constant arithmetic)
bind!(fixnum_narrow as narrow: i16 i64, i32 i128, i64 i128; ints: );

#[cfg(feature = "builds")]
mod builds;

/// Calls `$f::<T>$args` for each of the 34 fixed-point types of the build without `i128`.
#[macro_export]
macro_rules! for_narrow_types {
    ($f:ident $args:tt) => {{
        $crate::for_types_of!(fixnum_narrow $f $args i16: U0 U1 U2 U3 U4);
        $crate::for_types_of!(fixnum_narrow $f $args i32: U0 U1 U2 U3 U4 U5 U6 U7 U8 U9);
        $crate::for_types_of!(fixnum_narrow $f $args i64: U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18);
    }};
}
#[macro_export]
macro_rules! for_types_of {
    ($k:ident $f:ident $args:tt $t:ident: $($p:ident)*) => {
        $( $f::<$k::FixedPoint<$t, $k::typenum::$p>> $args; )*
    };
}

/// Calls `$f::<T>$args` for each of the 73 fixed-point types whose scale factor fits the width.
#[macro_export]
macro_rules! for_all_types {
    ($f:ident $args:tt) => {{
        $crate::for_i16_types!($f $args);
        $crate::for_i32_types!($f $args);
        $crate::for_i64_types!($f $args);
        $crate::for_i128_types!($f $args);
    }};
}
#[macro_export]
macro_rules! for_types {
    ($f:ident $args:tt $t:ident: $($p:ident)*) => {
        $( $f::<fixnum::FixedPoint<$t, fixnum::typenum::$p>> $args; )*
    };
}
#[macro_export]
macro_rules! for_i16_types {
    ($f:ident $args:tt) => { $crate::for_types!($f $args i16: U0 U1 U2 U3 U4) };
}
#[macro_export]
macro_rules! for_i32_types {
    ($f:ident $args:tt) => { $crate::for_types!($f $args i32: U0 U1 U2 U3 U4 U5 U6 U7 U8 U9) };
}
#[macro_export]
macro_rules! for_i64_types {
    ($f:ident $args:tt) => {
        $crate::for_types!($f $args i64: U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18)
    };
}
#[macro_export]
macro_rules! for_i128_types {
    ($f:ident $args:tt) => {
        $crate::for_types!($f $args i128: U0 U1 U2 U3 U4 U5 U6 U7 U8 U9 U10 U11 U12 U13 U14 U15 U16 U17 U18 U19
            U20 U21 U22 U23 U24 U25 U26 U27 U28 U29 U30 U31 U32 U33 U34 U35 U36 U37 U38)
    };
}
#[macro_export]
macro_rules! for_ints {
    ($f:ident $args:tt) => {{
        $f::<i8> $args;
        $f::<i16> $args;
        $f::<i32> $args;
        $f::<i64> $args;
        $f::<i128> $args;
    }};
}

/// Operands for the second register: the core alphabet (thorough: the full one). For 128-bit
/// storage, quick runs thin it out at the precisions that have no role of their own; every third
/// element with an offset that varies with P, so that three neighbouring precisions cover all.
pub fn cols<F: Fx>(thorough: bool) -> Vec<i128> {
    if thorough {
        return mc::lattice::full(F::BITS, F::P);
    }
    let v = mc::lattice::core(F::BITS, F::P);
    if F::BITS < 128 || [0, 1, 9, 18, 19, 20, 27, 37, 38].contains(&F::P) {
        return v;
    }
    let (n, off) = (v.len(), (F::P % 3) as usize);
    v.into_iter().enumerate().filter(|(i, _)| i % 3 == off || *i < 4 || *i + 4 >= n).map(|(_, x)| x).collect()
}

pub mod calc;
pub mod float;
pub mod interp;
pub mod preempt;
pub mod rustc;
pub mod spec;
pub mod text;
