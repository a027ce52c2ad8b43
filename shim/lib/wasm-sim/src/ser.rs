//! Serialisation to values of the other side. Without the JSON-compatible mode a map is no plain object.
use crate::{JsValue, Serializer};
use serde::ser::{self, Error as _, Serialize};
use serde_json::{Error, Map, Value};

type Res = Result<JsValue, Error>;
fn js(v: Value) -> Res {
    Ok(JsValue::Json(v, true))
}
fn split(v: JsValue) -> (Value, bool) {
    match v {
        JsValue::Json(v, p) => (v, p),
        _ => (Value::Null, true),
    }
}
pub struct Seq<'a>(&'a Serializer, Vec<Value>, bool, Option<&'static str>);
pub struct Fields<'a>(&'a Serializer, Map<String, Value>, bool, Option<&'static str>, Option<String>);

impl<'a> ser::Serializer for &'a Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Seq<'a>;
    type SerializeTuple = Seq<'a>;
    type SerializeTupleStruct = Seq<'a>;
    type SerializeTupleVariant = Seq<'a>;
    type SerializeMap = Fields<'a>;
    type SerializeStruct = Fields<'a>;
    type SerializeStructVariant = Fields<'a>;
    fn serialize_bool(self, v: bool) -> Res {
        js(v.into())
    }
    fn serialize_i8(self, v: i8) -> Res {
        js(v.into())
    }
    fn serialize_i16(self, v: i16) -> Res {
        js(v.into())
    }
    fn serialize_i32(self, v: i32) -> Res {
        js(v.into())
    }
    fn serialize_i64(self, v: i64) -> Res {
        js(v.into())
    }
    fn serialize_u8(self, v: u8) -> Res {
        js(v.into())
    }
    fn serialize_u16(self, v: u16) -> Res {
        js(v.into())
    }
    fn serialize_u32(self, v: u32) -> Res {
        js(v.into())
    }
    fn serialize_u64(self, v: u64) -> Res {
        js(v.into())
    }
    fn serialize_f32(self, v: f32) -> Res {
        js(v.into())
    }
    fn serialize_f64(self, v: f64) -> Res {
        js(v.into())
    }
    fn serialize_char(self, v: char) -> Res {
        js(v.to_string().into())
    }
    fn serialize_str(self, v: &str) -> Res {
        js(v.into())
    }
    fn serialize_bytes(self, v: &[u8]) -> Res {
        js(v.into())
    }
    fn serialize_none(self) -> Res {
        js(Value::Null)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Res {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Res {
        js(Value::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Res {
        js(Value::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Res {
        js(v.into())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Res {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Res {
        let (v, p) = split(v.serialize(self)?);
        Ok(JsValue::Json(Value::Object([(n.to_string(), v)].into_iter().collect()), p))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Seq<'a>, Error> {
        Ok(Seq(self, vec![], true, None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq<'a>, Error> {
        Ok(Seq(self, vec![], true, None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq<'a>, Error> {
        Ok(Seq(self, vec![], true, None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Seq<'a>, Error> {
        Ok(Seq(self, vec![], true, Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Fields<'a>, Error> {
        Ok(Fields(self, Map::new(), self.0, None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Fields<'a>, Error> {
        Ok(Fields(self, Map::new(), true, None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Fields<'a>, Error> {
        Ok(Fields(self, Map::new(), true, Some(n), None))
    }
}
impl Seq<'_> {
    fn put<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let (v, p) = split(v.serialize(self.0)?);
        self.1.push(v);
        self.2 &= p;
        Ok(())
    }
    fn fin(self) -> Res {
        let v = Value::Array(self.1);
        Ok(JsValue::Json(
            match self.3 {
                Some(n) => Value::Object([(n.to_string(), v)].into_iter().collect()),
                None => v,
            },
            self.2,
        ))
    }
}
impl Fields<'_> {
    fn put<T: Serialize + ?Sized>(&mut self, k: &str, v: &T) -> Result<(), Error> {
        let (v, p) = split(v.serialize(self.0)?);
        self.1.insert(k.to_string(), v);
        self.2 &= p;
        Ok(())
    }
    fn fin(self) -> Res {
        let v = Value::Object(self.1);
        Ok(JsValue::Json(
            match self.3 {
                Some(n) => Value::Object([(n.to_string(), v)].into_iter().collect()),
                None => v,
            },
            self.2,
        ))
    }
}
macro_rules! seq {
    ($t:ident $f:ident) => {
        impl ser::$t for Seq<'_> {
            type Ok = JsValue;
            type Error = Error;
            fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
                self.put(v)
            }
            fn end(self) -> Res {
                self.fin()
            }
        }
    };
}
seq!(SerializeSeq serialize_element);
seq!(SerializeTuple serialize_element);
seq!(SerializeTupleStruct serialize_field);
seq!(SerializeTupleVariant serialize_field);
macro_rules! fields {
    ($t:ident) => {
        impl ser::$t for Fields<'_> {
            type Ok = JsValue;
            type Error = Error;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
                self.put(k, v)
            }
            fn end(self) -> Res {
                self.fin()
            }
        }
    };
}
fields!(SerializeStruct);
fields!(SerializeStructVariant);
impl ser::SerializeMap for Fields<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        match split(k.serialize(self.0)?).0 {
            Value::String(s) => self.4 = Some(s),
            v => self.4 = Some(v.to_string()),
        }
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.4.take().ok_or_else(|| Error::custom("no key"))?;
        self.put(&k, v)
    }
    fn end(self) -> Res {
        self.fin()
    }
}
