//! A minimal binary serde format that supports everything but self description. Unlike JSON it has
//! maps with arbitrary keys; unlike JSON it also checks that reading consumes what was written.

use serde::de::{self, DeserializeOwned, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct Error(String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

/// Serializes and deserializes again
pub fn round<T: Serialize + DeserializeOwned>(v: &T) -> Result<T, String> {
    let mut s = Ser(vec![]);
    v.serialize(&mut s).map_err(|e| format!("serialization fails: {e}"))?;
    let mut d = De(&s.0);
    let r = T::deserialize(&mut d).map_err(|e| format!("deserialization fails: {e}"))?;
    if d.0.is_empty() {
        Ok(r)
    } else {
        Err("deserialization does not read everything that was written".into())
    }
}

/// The same through JSON; `None` if JSON cannot represent the value (maps whose keys are not strings)
pub fn json<T: Serialize + DeserializeOwned>(v: &T) -> Result<Option<T>, String> {
    let t = match serde_json::to_string(v) {
        Ok(t) => t,
        Err(e) if e.to_string().contains("key must be a string") => return Ok(None),
        Err(e) => return Err(format!("serialization to JSON fails: {e}")),
    };
    serde_json::from_str(&t).map(Some).map_err(|e| format!("deserialization from JSON fails: {e}"))
}

/// Through JSON if wanted and possible
pub fn either<T: Serialize + DeserializeOwned>(v: &T, js: bool) -> Result<T, String> {
    match if js { json(v)? } else { None } {
        Some(v) => Ok(v),
        None => round(v),
    }
}

struct Ser(Vec<u8>);
impl Ser {
    fn n(&mut self, n: u64) {
        self.0.extend(n.to_le_bytes());
    }
    fn raw(&mut self, b: &[u8]) {
        self.n(b.len() as u64);
        self.0.extend(b);
    }
}
macro_rules! num {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), Error> { self.n(v as u64); Ok(()) })* };
}
impl<'a> ser::Serializer for &'a mut Ser {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Counted<'a>;
    type SerializeTuple = Counted<'a>;
    type SerializeTupleStruct = Counted<'a>;
    type SerializeTupleVariant = Counted<'a>;
    type SerializeMap = Counted<'a>;
    type SerializeStruct = Counted<'a>;
    type SerializeStructVariant = Counted<'a>;
    num!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_char char);
    fn serialize_f32(self, v: f32) -> Result<(), Error> {
        self.n(v.to_bits().into());
        Ok(())
    }
    fn serialize_f64(self, v: f64) -> Result<(), Error> {
        self.n(v.to_bits());
        Ok(())
    }
    fn serialize_str(self, v: &str) -> Result<(), Error> {
        self.raw(v.as_bytes());
        Ok(())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Error> {
        self.raw(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), Error> {
        self.n(0);
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Error> {
        self.n(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Error> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), Error> {
        self.n(i.into());
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), Error> {
        self.n(i.into());
        v.serialize(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Counted<'a>, Error> {
        Ok(Counted::new(self, len, true))
    }
    fn serialize_tuple(self, len: usize) -> Result<Counted<'a>, Error> {
        Ok(Counted::new(self, Some(len), false))
    }
    fn serialize_tuple_struct(self, _: &'static str, len: usize) -> Result<Counted<'a>, Error> {
        Ok(Counted::new(self, Some(len), false))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, len: usize) -> Result<Counted<'a>, Error> {
        self.n(i.into());
        Ok(Counted::new(self, Some(len), false))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Counted<'a>, Error> {
        Ok(Counted::new(self, len, true))
    }
    fn serialize_struct(self, _: &'static str, len: usize) -> Result<Counted<'a>, Error> {
        // skipped fields are noticed when reading
        Ok(Counted::new(self, Some(len), true))
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, len: usize) -> Result<Counted<'a>, Error> {
        self.n(i.into());
        Ok(Counted::new(self, Some(len), true))
    }
}

/// Writes the number of elements where it is not known from the type
struct Counted<'a> {
    s: &'a mut Ser,
    at: Option<usize>,
    n: u64,
}
impl<'a> Counted<'a> {
    fn new(s: &'a mut Ser, _: Option<usize>, write: bool) -> Self {
        let at = write.then_some(s.0.len());
        if write {
            s.n(0);
        }
        Counted { s, at, n: 0 }
    }
    fn put<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.n += 1;
        v.serialize(&mut *self.s)
    }
    fn done(self) -> Result<(), Error> {
        if let Some(at) = self.at {
            self.s.0[at..at + 8].copy_from_slice(&self.n.to_le_bytes());
        }
        Ok(())
    }
}
macro_rules! seqs {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for Counted<'_> {
        type Ok = ();
        type Error = Error;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.put(v) }
        fn end(self) -> Result<(), Error> { self.done() }
    })* };
}
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl ser::SerializeMap for Counted<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Error> {
        self.put(k)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        v.serialize(&mut *self.s)
    }
    fn end(self) -> Result<(), Error> {
        self.done()
    }
}
macro_rules! structs {
    ($($t:ident),*) => { $(impl ser::$t for Counted<'_> {
        type Ok = ();
        type Error = Error;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
            self.put(k)?;
            v.serialize(&mut *self.s)
        }
        fn end(self) -> Result<(), Error> { self.done() }
    })* };
}
structs!(SerializeStruct, SerializeStructVariant);

struct De<'a>(&'a [u8]);
impl De<'_> {
    fn n(&mut self) -> Result<u64, Error> {
        let Some((a, b)) = self.0.split_first_chunk::<8>() else { return Err(Error("end of data".into())) };
        self.0 = b;
        Ok(u64::from_le_bytes(*a))
    }
    fn raw(&mut self) -> Result<Vec<u8>, Error> {
        let n = self.n()? as usize;
        if n > self.0.len() {
            return Err(Error("end of data".into()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a.to_vec())
    }
}
macro_rules! get {
    ($($f:ident $v:ident $t:ty),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let n = self.n()?;
        v.$v(n as $t)
    })* };
}
impl<'de> de::Deserializer<'de> for &mut De<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
        Err(Error("the format is not self-describing".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Error> {
        Err(Error("the format is not self-describing".into()))
    }
    get!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64);
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let n = self.n()?;
        v.visit_bool(n != 0)
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let n = self.n()?;
        v.visit_char(char::from_u32(n as u32).unwrap())
    }
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let n = self.n()?;
        v.visit_f32(f32::from_bits(n as u32))
    }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let n = self.n()?;
        v.visit_f64(f64::from_bits(n))
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let b = self.raw()?;
        v.visit_string(String::from_utf8(b).map_err(|e| Error(e.to_string()))?)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_str(v)
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let b = self.raw()?;
        v.visit_byte_buf(b)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.n()? == 0 {
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let n = self.n()?;
        v.visit_seq(Elems(self, n))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(Elems(self, n as u64))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(Elems(self, n as u64))
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        let n = self.n()?;
        v.visit_map(Elems(self, n))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        self.deserialize_map(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        v.visit_enum(Variant(self))
    }
}

struct Elems<'b, 'a>(&'b mut De<'a>, u64);
impl<'de> SeqAccess<'de> for Elems<'_, '_> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
}
impl<'de> MapAccess<'de> for Elems<'_, '_> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        self.next_element_seed(s)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Error> {
        s.deserialize(&mut *self.0)
    }
}

struct Variant<'b, 'a>(&'b mut De<'a>);
impl<'de> EnumAccess<'de> for Variant<'_, '_> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), Error> {
        let i = self.0.n()? as u32;
        let v = s.deserialize(de::value::U32Deserializer::<Error>::new(i))?;
        Ok((v, self))
    }
}
impl<'de> VariantAccess<'de> for Variant<'_, '_> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, Error> {
        s.deserialize(self.0)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Error> {
        v.visit_seq(Elems(self.0, n as u64))
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        de::Deserializer::deserialize_map(self.0, v)
    }
}
