//! Stand-in for `bcs`: serialization to Binary Canonical Serialization.
use serde::ser::{self, Serialize};
use std::fmt;

/// Error.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
type Res = Result<(), Error>;

/// Serializes.
pub fn to_bytes<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>, Error> {
    let mut s = Ser(Vec::new());
    v.serialize(&mut s)?;
    Ok(s.0)
}

struct Ser(Vec<u8>);

impl Ser {
    fn uleb(&mut self, mut v: u32) {
        while v >= 0x80 {
            self.0.push(v as u8 | 0x80);
            v >>= 7;
        }
        self.0.push(v as u8);
    }
    fn len(&mut self, n: usize) -> Res {
        if n > i32::MAX as usize {
            return Err(Error("too long".into()));
        }
        self.uleb(n as u32);
        Ok(())
    }
}

macro_rules! int {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Res { self.0.extend(v.to_le_bytes()); Ok(()) })* };
}

impl<'a> ser::Serializer for &'a mut Ser {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Map<'a>;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;

    int!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128,
         serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128);

    fn serialize_bool(self, v: bool) -> Res {
        self.0.push(v as u8);
        Ok(())
    }
    fn serialize_f32(self, _: f32) -> Res {
        Err(Error("float".into()))
    }
    fn serialize_f64(self, _: f64) -> Res {
        Err(Error("float".into()))
    }
    fn serialize_char(self, _: char) -> Res {
        Err(Error("char".into()))
    }
    fn serialize_str(self, v: &str) -> Res {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Res {
        self.len(v.len())?;
        self.0.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> Res {
        self.0.push(0);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Res {
        self.0.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Res {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Res {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Res {
        self.uleb(i);
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Res {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _: &'static str,
        i: u32,
        _: &'static str,
        v: &T,
    ) -> Res {
        self.uleb(i);
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Error> {
        self.len(n.ok_or_else(|| Error("length not known".into()))?)?;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, Error> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Error> {
        Ok(self)
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        i: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self, Error> {
        self.uleb(i);
        Ok(self)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Map<'a>, Error> {
        Ok(Map { s: self, e: Vec::new(), k: None })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Error> {
        Ok(self)
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        i: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self, Error> {
        self.uleb(i);
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

macro_rules! seq {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for &mut Ser {
        type Ok = ();
        type Error = Error;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Res { v.serialize(&mut **self) }
        fn end(self) -> Res { Ok(()) }
    })* };
}
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element,
     SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! st {
    ($($t:ident),*) => { $(impl ser::$t for &mut Ser {
        type Ok = ();
        type Error = Error;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Res {
            v.serialize(&mut **self)
        }
        fn end(self) -> Res { Ok(()) }
    })* };
}
st!(SerializeStruct, SerializeStructVariant);

struct Map<'a> {
    s: &'a mut Ser,
    e: Vec<(Vec<u8>, Vec<u8>)>,
    k: Option<Vec<u8>>,
}
impl ser::SerializeMap for Map<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Res {
        self.k = Some(to_bytes(k)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Res {
        let k = self.k.take().ok_or_else(|| Error("value without key".into()))?;
        self.e.push((k, to_bytes(v)?));
        Ok(())
    }
    fn end(mut self) -> Res {
        self.e.sort();
        self.e.dedup_by(|a, b| a.0 == b.0);
        self.s.len(self.e.len())?;
        for (k, v) in self.e {
            self.s.0.extend(k);
            self.s.0.extend(v);
        }
        Ok(())
    }
}
