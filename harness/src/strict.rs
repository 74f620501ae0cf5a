//! A serde serialiser into a value tree that rejects wrong announced lengths
//! (as length-prefixed self-describing formats such as CBOR rely on them).

use serde::ser::*;
use serde_json::{Map, Number, Value};
use std::fmt::Display;

#[derive(Debug)]
pub struct Error(String);
impl Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl serde::ser::Error for Error {
    fn custom<T: Display>(m: T) -> Error {
        Error(m.to_string())
    }
}

pub fn to_value<T: Serialize + ?Sized>(x: &T) -> Result<Value, Error> {
    x.serialize(S)
}

struct S;
pub struct Seq {
    announced: Option<usize>,
    v: Vec<Value>,
}
pub struct MapS {
    announced: Option<usize>,
    key: Option<String>,
    n: usize,
    m: Map<String, Value>,
}

impl Seq {
    fn finish(self) -> Result<Value, Error> {
        match self.announced {
            Some(n) if n != self.v.len() => Err(Error(format!("{n} elements announced, {} serialised", self.v.len()))),
            _ => Ok(Value::Array(self.v)),
        }
    }
}

type R = Result<Value, Error>;
macro_rules! int {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> R { Ok(Value::from(v)) })* };
}

impl Serializer for S {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = Seq;
    type SerializeTuple = Seq;
    type SerializeTupleStruct = Seq;
    type SerializeTupleVariant = Impossible<Value, Error>;
    type SerializeMap = MapS;
    type SerializeStruct = MapS;
    type SerializeStructVariant = Impossible<Value, Error>;
    int!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_bool(self, v: bool) -> R {
        Ok(Value::Bool(v))
    }
    fn serialize_f32(self, v: f32) -> R {
        self.serialize_f64(v as f64)
    }
    fn serialize_f64(self, v: f64) -> R {
        Ok(Number::from_f64(v).map(Value::Number).unwrap_or(Value::Null))
    }
    fn serialize_char(self, v: char) -> R {
        Ok(Value::String(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> R {
        Ok(Value::String(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        Ok(Value::from(v.to_vec()))
    }
    fn serialize_none(self) -> R {
        Ok(Value::Null)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        Ok(Value::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        Ok(Value::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R {
        Ok(Value::String(v.to_string()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, k: &'static str, v: &T) -> R {
        let mut m = Map::new();
        m.insert(k.to_string(), to_value(v)?);
        Ok(Value::Object(m))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Seq, Error> {
        Ok(Seq { announced: n, v: Vec::new() })
    }
    fn serialize_tuple(self, n: usize) -> Result<Seq, Error> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Seq, Error> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Error> {
        Err(Error("tuple variants are not supported".into()))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<MapS, Error> {
        Ok(MapS { announced: n, key: None, n: 0, m: Map::new() })
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<MapS, Error> {
        self.serialize_map(Some(n))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Error> {
        Err(Error("struct variants are not supported".into()))
    }
}

impl SerializeSeq for Seq {
    type Ok = Value;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.v.push(to_value(v)?);
        Ok(())
    }
    fn end(self) -> R {
        self.finish()
    }
}
impl SerializeTuple for Seq {
    type Ok = Value;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.v.push(to_value(v)?);
        Ok(())
    }
    fn end(self) -> R {
        self.finish()
    }
}
impl SerializeTupleStruct for Seq {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.v.push(to_value(v)?);
        Ok(())
    }
    fn end(self) -> R {
        self.finish()
    }
}
impl MapS {
    fn put(&mut self, k: String, v: Value) -> Result<(), Error> {
        self.n += 1;
        match self.m.insert(k.clone(), v) {
            None => Ok(()),
            Some(_) => Err(Error(format!("key {k:?} serialised twice"))),
        }
    }
    fn finish(self) -> R {
        match self.announced {
            Some(n) if n != self.n => Err(Error(format!("{n} entries announced, {} serialised", self.n))),
            _ => Ok(Value::Object(self.m)),
        }
    }
}
impl SerializeMap for MapS {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        match to_value(k)? {
            Value::String(s) => self.key = Some(s),
            v => self.key = Some(v.to_string()),
        }
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.key.take().ok_or_else(|| Error("value without key".into()))?;
        self.put(k, to_value(v)?)
    }
    fn end(self) -> R {
        self.finish()
    }
}
impl SerializeStruct for MapS {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.put(k.to_string(), to_value(v)?)
    }
    fn end(self) -> R {
        self.finish()
    }
}
