//! Single tokens of the serde data model as states: `Rec` records what a value writes, `Play`
//! presents a token to a reader exactly as a format would that has this token in its input.
use mc::Big;
use serde::de::{self, IntoDeserializer, Visitor};
use serde::ser::{self, Impossible, Serialize};
use serde::{Deserializer, Serializer};
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Life {
    Borrowed,
    Transient,
    Owned,
}
pub const LIVES: [Life; 3] = [Life::Borrowed, Life::Transient, Life::Owned];

#[derive(Clone, Debug)]
pub enum Tok {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String, Life),
    Bytes(Vec<u8>, Life),
    None,
    Some(Box<Tok>),
    Unit,
    Newtype(Box<Tok>),
    Seq(Vec<Tok>),
    Map(Vec<(Tok, Tok)>),
    /// unit variant of an enum
    Enum(&'static str),
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        use Tok::*;
        match (self, o) {
            (F64(a), F64(b)) => a.to_bits() == b.to_bits(),
            (F32(a), F32(b)) => a.to_bits() == b.to_bits(),
            (Str(a, _), Str(b, _)) => a == b, // a writer has no lifetimes
            (Some(a), Some(b)) => a == b,
            (None, None) | (Unit, Unit) => true,
            (I8(a), I8(b)) => a == b,
            (I16(a), I16(b)) => a == b,
            (I32(a), I32(b)) => a == b,
            (I64(a), I64(b)) => a == b,
            (I128(a), I128(b)) => a == b,
            (U8(a), U8(b)) => a == b,
            (U16(a), U16(b)) => a == b,
            (U32(a), U32(b)) => a == b,
            (U64(a), U64(b)) => a == b,
            (U128(a), U128(b)) => a == b,
            _ => false,
        }
    }
}

impl Tok {
    /// The raw integer of a storage type.
    pub fn raw(bits: u32, x: i128) -> Tok {
        match bits {
            16 => Tok::I16(x as i16),
            32 => Tok::I32(x as i32),
            64 => Tok::I64(x as i64),
            _ => Tok::I128(x),
        }
    }
    pub fn str(s: &str, l: Life) -> Tok {
        Tok::Str(s.into(), l)
    }
    /// All tokens that hold this integer.
    pub fn ints(n: &Big) -> Vec<Tok> {
        let mut v = vec![];
        if let Some(x) = n.to_i128() {
            macro_rules! put {
                ($($k:ident $t:ident)*) => { $( v.extend(<$t>::try_from(x).ok().map(Tok::$k)); )* };
            }
            put!(I8 i8 I16 i16 I32 i32 I64 i64 I128 i128 U8 u8 U16 u16 U32 u32 U64 u64 U128 u128);
        } else if n.sign() > 0 && n.bits() <= 128 {
            let low = n.sub(&Big::pow(2, 127)).to_i128().unwrap() as u128;
            v.push(Tok::U128(low + (1 << 127)));
        }
        v
    }
}

#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Error {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Error {
        Error(m.to_string())
    }
}

/// Records the token a value writes.
pub struct Rec {
    pub human: bool,
}
macro_rules! rec {
    ($($f:ident $t:ty, $k:ident;)*) => { $(
        fn $f(self, v: $t) -> Result<Tok, Error> { Ok(Tok::$k(v)) }
    )* };
}
fn compound<T>() -> Result<T, Error> {
    Err(Error("compound".into()))
}
impl Serializer for Rec {
    type Ok = Tok;
    type Error = Error;
    type SerializeSeq = Impossible<Tok, Error>;
    type SerializeTuple = Impossible<Tok, Error>;
    type SerializeTupleStruct = Impossible<Tok, Error>;
    type SerializeTupleVariant = Impossible<Tok, Error>;
    type SerializeMap = Impossible<Tok, Error>;
    type SerializeStruct = Impossible<Tok, Error>;
    type SerializeStructVariant = Impossible<Tok, Error>;
    rec! {
        serialize_bool bool, Bool; serialize_i8 i8, I8; serialize_i16 i16, I16; serialize_i32 i32, I32; serialize_i64 i64, I64;
        serialize_i128 i128, I128; serialize_u8 u8, U8; serialize_u16 u16, U16; serialize_u32 u32, U32; serialize_u64 u64, U64;
        serialize_u128 u128, U128; serialize_f32 f32, F32; serialize_f64 f64, F64; serialize_char char, Char;
    }
    fn serialize_str(self, v: &str) -> Result<Tok, Error> {
        Ok(Tok::str(v, Life::Transient))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Tok, Error> {
        Ok(Tok::Bytes(v.into(), Life::Transient))
    }
    fn serialize_none(self) -> Result<Tok, Error> {
        Ok(Tok::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Tok, Error> {
        Ok(Tok::Some(Box::new(v.serialize(Rec { human: self.human })?)))
    }
    fn serialize_unit(self) -> Result<Tok, Error> {
        Ok(Tok::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tok, Error> {
        Ok(Tok::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Tok, Error> {
        Ok(Tok::Enum(v))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Tok, Error> {
        Ok(Tok::Newtype(Box::new(v.serialize(Rec { human: self.human })?)))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Tok, Error> {
        compound()
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Error> {
        compound()
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Error> {
        compound()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Error> {
        compound()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> {
        compound()
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> {
        compound()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Error> {
        compound()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> {
        compound()
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}

/// Presents one token.
#[derive(Clone, Copy)]
pub struct Play<'d> {
    pub tok: &'d Tok,
    pub human: bool,
}

macro_rules! any {
    ($($f:ident)*) => { $(
        fn $f<V: Visitor<'d>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) }
    )* };
}

impl<'d> Deserializer<'d> for Play<'d> {
    type Error = Error;

    fn deserialize_any<V: Visitor<'d>>(self, v: V) -> Result<V::Value, Error> {
        let human = self.human;
        match self.tok {
            Tok::Bool(x) => v.visit_bool(*x),
            Tok::I8(x) => v.visit_i8(*x),
            Tok::I16(x) => v.visit_i16(*x),
            Tok::I32(x) => v.visit_i32(*x),
            Tok::I64(x) => v.visit_i64(*x),
            Tok::I128(x) => v.visit_i128(*x),
            Tok::U8(x) => v.visit_u8(*x),
            Tok::U16(x) => v.visit_u16(*x),
            Tok::U32(x) => v.visit_u32(*x),
            Tok::U64(x) => v.visit_u64(*x),
            Tok::U128(x) => v.visit_u128(*x),
            Tok::F32(x) => v.visit_f32(*x),
            Tok::F64(x) => v.visit_f64(*x),
            Tok::Char(x) => v.visit_char(*x),
            Tok::Str(s, Life::Borrowed) => v.visit_borrowed_str(s),
            Tok::Str(s, Life::Transient) => v.visit_str(&s.clone()),
            Tok::Str(s, Life::Owned) => v.visit_string(s.clone()),
            Tok::Bytes(s, Life::Borrowed) => v.visit_borrowed_bytes(s),
            Tok::Bytes(s, Life::Transient) => v.visit_bytes(&s.clone()),
            Tok::Bytes(s, Life::Owned) => v.visit_byte_buf(s.clone()),
            Tok::None => v.visit_none(),
            Tok::Some(t) => v.visit_some(Play { tok: t, human }),
            Tok::Unit => v.visit_unit(),
            Tok::Newtype(t) => v.visit_newtype_struct(Play { tok: t, human }),
            Tok::Seq(l) => v.visit_seq(de::value::SeqDeserializer::new(l.iter().map(|tok| Play { tok, human }))),
            Tok::Map(l) => v.visit_map(de::value::MapDeserializer::new(
                l.iter().map(|(k, x)| (Play { tok: k, human }, Play { tok: x, human })),
            )),
            Tok::Enum(n) => v.visit_enum((*n).into_deserializer()),
        }
    }
    fn deserialize_option<V: Visitor<'d>>(self, v: V) -> Result<V::Value, Error> {
        match self.tok {
            Tok::None => v.visit_none(),
            Tok::Unit => v.visit_unit(),
            Tok::Some(t) => v.visit_some(Play { tok: t, human: self.human }),
            _ => v.visit_some(self),
        }
    }
    any!(deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128 deserialize_u8 deserialize_u16
        deserialize_u32 deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string
        deserialize_bytes deserialize_byte_buf deserialize_unit deserialize_seq deserialize_map deserialize_identifier deserialize_ignored_any);
    fn deserialize_unit_struct<V: Visitor<'d>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'d>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn deserialize_tuple<V: Visitor<'d>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'d>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn deserialize_struct<V: Visitor<'d>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn deserialize_enum<V: Visitor<'d>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        self.deserialize_any(v)
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}
impl<'d> IntoDeserializer<'d, Error> for Play<'d> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}
