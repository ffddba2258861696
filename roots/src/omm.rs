//! An arbitrary self-describing input and a recording output for the crate's serde implementations.
//! The functions marked "any" are never looked into by the verifier: it lets them return any value.
use core::fmt::Display;
use serde::de::{DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::forward_to_deserialize_any;
use serde::ser::{Impossible, Serialize, SerializeStruct, Serializer};
use sgp4::{Classification, Elements};

#[derive(Debug)]
pub struct Failure;

impl Display for Failure {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}

#[cfg(feature = "cfg_default")]
impl core::error::Error for Failure {}
#[cfg(not(feature = "cfg_default"))]
impl serde::de::StdError for Failure {}

impl serde::de::Error for Failure {
    fn custom<T: Display>(_: T) -> Self {
        Failure
    }
    fn invalid_type(_: serde::de::Unexpected, _: &dyn serde::de::Expected) -> Self {
        Failure
    }
    fn invalid_value(_: serde::de::Unexpected, _: &dyn serde::de::Expected) -> Self {
        Failure
    }
    fn invalid_length(_: usize, _: &dyn serde::de::Expected) -> Self {
        Failure
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
        Failure
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        Failure
    }
    fn missing_field(_: &'static str) -> Self {
        Failure
    }
    fn duplicate_field(_: &'static str) -> Self {
        Failure
    }
}

impl serde::ser::Error for Failure {
    fn custom<T: Display>(_: T) -> Self {
        Failure
    }
}

/// One value of a document.
pub enum Json<'a> {
    Null,
    Bool(bool),
    Unsigned(u64),
    Signed(i64),
    Float(f64),
    Text(&'a str),
    Sequence,
    Object,
}

/// any: the next key of the document
pub fn next_key(_: &mut Document) -> Result<Option<&'static str>, Failure> {
    Ok(None)
}

/// any: the value of the last key
pub fn value(_: &mut Document) -> Json<'static> {
    Json::Null
}

/// any: what a visitor makes of a sequence
pub fn sequence<'de, V: Visitor<'de>>(visitor: V) -> Result<V::Value, Failure> {
    visitor.visit_seq(Document)
}

/// any: what a visitor makes of a nested object
pub fn object<'de, V: Visitor<'de>>(visitor: V) -> Result<V::Value, Failure> {
    visitor.visit_map(Document)
}

pub struct Document;

impl<'de> SeqAccess<'de> for Document {
    type Error = Failure;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, _: T) -> Result<Option<T::Value>, Failure> {
        Ok(None)
    }
}

impl<'de> MapAccess<'de> for Document {
    type Error = Failure;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Failure> {
        match next_key(self)? {
            Some(key) => match seed.deserialize(Json::Text(key)) {
                Ok(k) => Ok(Some(k)),
                Err(e) => Err(e),
            },
            None => Ok(None),
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value, Failure> {
        seed.deserialize(value(self))
    }
}

impl<'de> Deserializer<'de> for Document {
    type Error = Failure;
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Failure> {
        visitor.visit_map(self)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'de> Deserializer<'de> for Json<'de> {
    type Error = Failure;
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Failure> {
        match self {
            Json::Null => visitor.visit_unit(),
            Json::Bool(x) => visitor.visit_bool(x),
            Json::Unsigned(x) => visitor.visit_u64(x),
            Json::Signed(x) => visitor.visit_i64(x),
            Json::Float(x) => visitor.visit_f64(x),
            Json::Text(x) => visitor.visit_str(x),
            Json::Sequence => sequence(visitor),
            Json::Object => object(visitor),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Failure> {
        match self {
            Json::Null => visitor.visit_none(),
            other => visitor.visit_some(other),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, visitor: V) -> Result<V::Value, Failure> {
        visitor.visit_newtype_struct(self)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Failure> {
        visitor.visit_unit()
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], visitor: V) -> Result<V::Value, Failure> {
        match self {
            Json::Text(x) => visitor.visit_enum(Variant(x)),
            Json::Object => object(visitor),
            _ => Err(Failure),
        }
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit
        unit_struct seq tuple tuple_struct map struct identifier
    }
}

pub struct Variant<'a>(&'a str);

impl<'de> EnumAccess<'de> for Variant<'de> {
    type Error = Failure;
    type Variant = Variant<'de>;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Variant<'de>), Failure> {
        match seed.deserialize(Json::Text(self.0)) {
            Ok(v) => Ok((v, self)),
            Err(e) => Err(e),
        }
    }
}

impl<'de> VariantAccess<'de> for Variant<'de> {
    type Error = Failure;
    fn unit_variant(self) -> Result<(), Failure> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, Failure> {
        Err(Failure)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Failure> {
        Err(Failure)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Failure> {
        Err(Failure)
    }
}

pub struct Sink;

/// any: receives a key of the output
pub fn put_key(_: &'static str) {}
/// any: receives an integer of the output
pub fn put_integer(_: u64) {}
/// any: receives a number of the output
pub fn put_float(_: f64) {}
/// any: receives a text of the output
pub fn put_text(_: &str) {}
/// any: receives a null of the output
pub fn put_none() {}

type No = Impossible<(), Failure>;

impl SerializeStruct for Sink {
    type Ok = ();
    type Error = Failure;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, value: &T) -> Result<(), Failure> {
        put_key(key);
        value.serialize(Sink)
    }
    fn end(self) -> Result<(), Failure> {
        Ok(())
    }
}

impl Serializer for Sink {
    type Ok = ();
    type Error = Failure;
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = Sink;
    type SerializeStructVariant = No;
    fn serialize_bool(self, _: bool) -> Result<(), Failure> {
        Err(Failure)
    }
    fn serialize_i8(self, _: i8) -> Result<(), Failure> {
        Err(Failure)
    }
    fn serialize_i16(self, _: i16) -> Result<(), Failure> {
        Err(Failure)
    }
    fn serialize_i32(self, _: i32) -> Result<(), Failure> {
        Err(Failure)
    }
    fn serialize_i64(self, _: i64) -> Result<(), Failure> {
        Err(Failure)
    }
    fn serialize_u8(self, x: u8) -> Result<(), Failure> {
        put_integer(x as u64);
        Ok(())
    }
    fn serialize_u16(self, x: u16) -> Result<(), Failure> {
        put_integer(x as u64);
        Ok(())
    }
    fn serialize_u32(self, x: u32) -> Result<(), Failure> {
        put_integer(x as u64);
        Ok(())
    }
    fn serialize_u64(self, x: u64) -> Result<(), Failure> {
        put_integer(x);
        Ok(())
    }
    fn serialize_f32(self, _: f32) -> Result<(), Failure> {
        Err(Failure)
    }
    fn serialize_f64(self, x: f64) -> Result<(), Failure> {
        put_float(x);
        Ok(())
    }
    fn serialize_char(self, _: char) -> Result<(), Failure> {
        Err(Failure)
    }
    fn serialize_str(self, x: &str) -> Result<(), Failure> {
        put_text(x);
        Ok(())
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<(), Failure> {
        Err(Failure)
    }
    fn serialize_none(self) -> Result<(), Failure> {
        put_none();
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, x: &T) -> Result<(), Failure> {
        x.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Failure> {
        put_none();
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Failure> {
        Err(Failure)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, variant: &'static str) -> Result<(), Failure> {
        put_text(variant);
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, x: &T) -> Result<(), Failure> {
        x.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Failure> {
        Err(Failure)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<No, Failure> {
        Err(Failure)
    }
    fn serialize_tuple(self, _: usize) -> Result<No, Failure> {
        Err(Failure)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Failure> {
        Err(Failure)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Failure> {
        Err(Failure)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Failure> {
        Err(Failure)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Sink, Failure> {
        Ok(Sink)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Failure> {
        Err(Failure)
    }
    fn collect_str<T: ?Sized + Display>(self, _: &T) -> Result<(), Failure> {
        Err(Failure)
    }
}

pub fn omm_read() -> Result<Elements, Failure> {
    serde::Deserialize::deserialize(Document)
}

pub fn omm_classification(text: &'static str) -> Result<Classification, Failure> {
    serde::Deserialize::deserialize(Json::Text(text))
}

pub fn omm_write(elements: &Elements) -> Result<(), Failure> {
    elements.serialize(Sink)
}
