//! Integration features of the crate: a recording serializer and a replaying deserializer whose
//! states are single tokens of the serde data model, and a uniform view of the adapters.
pub mod token;

use checks::Fx;
use mc::Big;
use serde::{de::DeserializeOwned, Deserializer, Serialize, Serializer};

/// The ways the crate offers to (de)serialize a number.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Via {
    Default,
    Repr,
    Str,
    Float,
}
pub const VIAS: [Via; 4] = [Via::Default, Via::Repr, Via::Str, Via::Float];
pub const ADAPTERS: [Via; 3] = [Via::Repr, Via::Str, Via::Float];

/// A wrapper type, as users write them.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Wrap<F>(pub F);

pub trait Io: Fx + Serialize + DeserializeOwned {
    type Raw: Serialize + DeserializeOwned + Copy + PartialEq + std::fmt::Debug + Send + Sync + 'static;
    fn raw(bits: i128) -> Self::Raw;
    fn unraw(r: Self::Raw) -> i128;
    /// through the plain type and through a wrapper of it
    fn ser<S: Serializer>(self, via: Via, wrapped: bool, s: S) -> Result<S::Ok, S::Error>;
    fn de<'d, D: Deserializer<'d>>(via: Via, wrapped: bool, d: D) -> Result<i128, D::Error>;
    fn ser_opt<S: Serializer>(v: Option<Self>, via: Via, wrapped: bool, s: S) -> Result<S::Ok, S::Error>;
    fn de_opt<'d, D: Deserializer<'d>>(via: Via, wrapped: bool, d: D) -> Result<Option<i128>, D::Error>;
}

macro_rules! io {
    ($k:ident: $($t:ident)*) => { $(
        impl<P: 'static> From<$k::FixedPoint<$t, P>> for Wrap<$k::FixedPoint<$t, P>> {
            fn from(x: $k::FixedPoint<$t, P>) -> Self { Wrap(x) }
        }
        impl<P: 'static> From<Wrap<$k::FixedPoint<$t, P>>> for $k::FixedPoint<$t, P> {
            fn from(x: Wrap<$k::FixedPoint<$t, P>>) -> Self { x.0 }
        }
        impl<P> Io for $k::FixedPoint<$t, P>
        where
            P: $k::Precision + Send + Sync + 'static + Default + PartialEq + Eq + PartialOrd + Ord + std::hash::Hash,
        {
            type Raw = $t;
            fn raw(bits: i128) -> $t { bits as $t }
            fn unraw(r: $t) -> i128 { r as i128 }
            fn ser<S: Serializer>(self, via: Via, wrapped: bool, s: S) -> Result<S::Ok, S::Error> {
                use $k::serde as x;
                let w = Wrap(self);
                match (via, wrapped) {
                    (Via::Default, _) => self.serialize(s),
                    (Via::Repr, false) => x::repr::serialize(&self, s),
                    (Via::Repr, true) => x::repr::serialize(&w, s),
                    (Via::Str, false) => x::str::serialize(&self, s),
                    (Via::Str, true) => x::str::serialize(&w, s),
                    (Via::Float, false) => x::float::serialize(&self, s),
                    (Via::Float, true) => x::float::serialize(&w, s),
                }
            }
            fn de<'d, D: Deserializer<'d>>(via: Via, wrapped: bool, d: D) -> Result<i128, D::Error> {
                use $k::serde as x;
                let un = |x: Wrap<Self>| x.0;
                match (via, wrapped) {
                    (Via::Default, _) => <Self as serde::Deserialize>::deserialize(d),
                    (Via::Repr, false) => x::repr::deserialize(d),
                    (Via::Repr, true) => x::repr::deserialize(d).map(un),
                    (Via::Str, false) => x::str::deserialize(d),
                    (Via::Str, true) => x::str::deserialize(d).map(un),
                    (Via::Float, false) => x::float::deserialize(d),
                    (Via::Float, true) => x::float::deserialize(d).map(un),
                }.map(Fx::bits)
            }
            fn ser_opt<S: Serializer>(v: Option<Self>, via: Via, wrapped: bool, s: S) -> Result<S::Ok, S::Error> {
                use $k::serde as x;
                let w = v.map(Wrap);
                match (via, wrapped) {
                    (Via::Default, _) => v.serialize(s),
                    (Via::Repr, false) => x::repr_option::serialize(&v, s),
                    (Via::Repr, true) => x::repr_option::serialize(&w, s),
                    (Via::Str, false) => x::str_option::serialize(&v, s),
                    (Via::Str, true) => x::str_option::serialize(&w, s),
                    (Via::Float, false) => x::float_option::serialize(&v, s),
                    (Via::Float, true) => x::float_option::serialize(&w, s),
                }
            }
            fn de_opt<'d, D: Deserializer<'d>>(via: Via, wrapped: bool, d: D) -> Result<Option<i128>, D::Error> {
                use $k::serde as x;
                let un = |x: Option<Wrap<Self>>| x.map(|x| x.0);
                match (via, wrapped) {
                    (Via::Default, _) => <Option<Self> as serde::Deserialize>::deserialize(d),
                    (Via::Repr, false) => x::repr_option::deserialize(d),
                    (Via::Repr, true) => x::repr_option::deserialize(d).map(un),
                    (Via::Str, false) => x::str_option::deserialize(d),
                    (Via::Str, true) => x::str_option::deserialize(d).map(un),
                    (Via::Float, false) => x::float_option::deserialize(d),
                    (Via::Float, true) => x::float_option::deserialize(d).map(un),
                }.map(|x| x.map(Fx::bits))
            }
        }
    )* };
}
io!(fixnum: i16 i32 i64 i128);
io!(fixnum_narrow: i16 i32 i64);

/// Types on which real formats are exercised: every storage width, usual and extreme
/// precisions, both builds.
#[macro_export]
macro_rules! for_some_types {
    ($f:ident $args:tt) => {{
        checks::for_types_of!(fixnum $f $args i16: U0 U2);
        checks::for_types_of!(fixnum $f $args i32: U5);
        checks::for_types_of!(fixnum $f $args i64: U9 U18);
        checks::for_types_of!(fixnum $f $args i128: U18 U38);
        checks::for_types_of!(fixnum_narrow $f $args i32: U9);
        checks::for_types_of!(fixnum_narrow $f $args i64: U9);
    }};
}

/// Direct conversion of an integer, by the model.
pub fn int_bits<F: Fx>(n: &Big) -> Option<i128> {
    n.mul(&Big::i(F::coef())).to_i128().filter(|x| *x >= F::lo() && *x <= F::hi())
}
/// Direct conversion of a float (the subject of C14).
pub fn float_bits<F: Fx>(x: f64) -> Option<i128> {
    F::try_from(x).ok().map(|v: F| v.bits())
}
/// What the raw integer type itself makes of a token.
pub fn raw_bits<F: Io>(tok: &token::Tok, human: bool) -> Option<i128> {
    <F::Raw as serde::Deserialize>::deserialize(token::Play { tok, human }).ok().map(F::unraw)
}
pub fn to_f64<F: Fx>(a: i128) -> f64 {
    F::of(a).into()
}

/// All texts of up to `max` characters over an alphabet, in order of length.
pub fn words(alphabet: &[u8], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = all.len();
        for i in from..to {
            for &c in alphabet {
                all.push(format!("{}{}", all[i], c as char));
            }
        }
        from = to;
    }
    all
}

/// The integers that tokens are made of: limits of every width, of the type and of its scale.
pub fn integers<F: Fx>() -> Vec<Big> {
    let mut v = vec![];
    for b in [7u32, 8, 15, 16, 31, 32, 52, 53, 63, 64, 127, 128] {
        v.push(Big::pow(2, b));
    }
    let c = Big::i(F::coef());
    v.extend([Big::u(0), c.clone(), Big::i(F::hi()), Big::i(F::lo()), Big::i(F::hi() / F::coef()), Big::i(F::lo() / F::coef()), Big::u(10), Big::u(42)]);
    for w in [8u32, 16, 32, 64, 128] {
        // fits after wrapping
        v.push(Big::pow(2, w).add(&Big::u(1)));
        v.push(Big::pow(2, w).add(&c));
    }
    let mut all = std::collections::BTreeSet::new();
    for x in v {
        for d in -2i128..=2 {
            for s in [x.clone(), x.neg()] {
                all.insert(s.add(&Big::i(d)));
            }
        }
    }
    all.into_iter().collect()
}
