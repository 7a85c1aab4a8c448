//! A minimal binary (not human-readable) data format: one byte string.
use serde::{
    de::{self, IntoDeserializer, Visitor},
    forward_to_deserialize_any,
    ser::{Impossible, Serialize, Serializer},
};
use std::fmt;

#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl serde::ser::Error for E {
    fn custom<T: fmt::Display>(t: T) -> Self {
        E(t.to_string())
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(t: T) -> Self {
        E(t.to_string())
    }
}

pub struct Ser;
type Im = Impossible<Vec<u8>, E>;
macro_rules! no {
    ($($f:ident: $t:ty),*) => { $(fn $f(self, _: $t) -> Result<Vec<u8>, E> { Err(E(stringify!($f).into())) })* };
}
impl Serializer for Ser {
    type Ok = Vec<u8>;
    type Error = E;
    type SerializeSeq = SeqOut;
    type SerializeTuple = SeqOut;
    type SerializeTupleStruct = Im;
    type SerializeTupleVariant = Im;
    type SerializeMap = Im;
    type SerializeStruct = Im;
    type SerializeStructVariant = Im;
    no!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64,
        serialize_u8: u8, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32,
        serialize_f64: f64, serialize_char: char, serialize_unit_struct: &'static str);
    fn serialize_str(self, v: &str) -> Result<Vec<u8>, E> {
        Ok(v.as_bytes().to_vec())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Vec<u8>, E> {
        Ok(v.to_vec())
    }
    fn serialize_none(self) -> Result<Vec<u8>, E> {
        Err(E("none".into()))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Vec<u8>, E> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Vec<u8>, E> {
        Err(E("unit".into()))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Vec<u8>, E> {
        Err(E("variant".into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Vec<u8>, E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<Vec<u8>, E> {
        Err(E("variant".into()))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqOut, E> {
        Ok(SeqOut(Vec::new()))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqOut, E> {
        Ok(SeqOut(Vec::new()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Im, E> {
        Err(E("tuple struct".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Im, E> {
        Err(E("tuple variant".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Im, E> {
        Err(E("map".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Im, E> {
        Err(E("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Im, E> {
        Err(E("struct variant".into()))
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

pub struct SeqOut(Vec<u8>);
impl serde::ser::SerializeSeq for SeqOut {
    type Ok = Vec<u8>;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        let s = serde_json::to_string(v).map_err(|e| E(e.to_string()))?;
        self.0.push(s.parse().map_err(|_| E("element".into()))?);
        Ok(())
    }
    fn end(self) -> Result<Vec<u8>, E> {
        Ok(self.0)
    }
}
impl serde::ser::SerializeTuple for SeqOut {
    type Ok = Vec<u8>;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        serde::ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Vec<u8>, E> {
        Ok(self.0)
    }
}

/// How the format hands the bytes over.
#[derive(Clone, Copy, Debug)]
pub enum How {
    Borrowed,
    Slice,
    Owned,
    Seq,
}

pub struct De<'a>(pub &'a [u8], pub How);
impl<'de> de::Deserializer<'de> for De<'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.1 {
            How::Borrowed => v.visit_borrowed_bytes(self.0),
            How::Slice => v.visit_bytes(&self.0.to_vec()),
            How::Owned => v.visit_byte_buf(self.0.to_vec()),
            How::Seq => {
                let d: de::value::SeqDeserializer<_, E> =
                    self.0.iter().map(|b| IntoDeserializer::<E>::into_deserializer(*b)).collect::<Vec<_>>().into_iter().into_seq();
                v.visit_seq(d)
            }
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

trait IntoSeq: Sized {
    fn into_seq(self) -> de::value::SeqDeserializer<Self, E>;
}
impl<I> IntoSeq for I
where
    I: Iterator,
    I::Item: IntoDeserializer<'static, E>,
{
    fn into_seq(self) -> de::value::SeqDeserializer<Self, E> {
        de::value::SeqDeserializer::new(self)
    }
}
