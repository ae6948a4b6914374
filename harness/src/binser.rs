//! A compact, non self-describing serde format with bit-exact floats: the kind
//! of format (bincode, postcard) someone caches decoded frames in.

use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct Error(String);

impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

type R<T> = Result<T, Error>;

#[derive(Default)]
pub struct Ser {
    out: Vec<u8>,
    canonical: bool,
    quaternion: bool,
    /// elements announced and written, of every open compound
    open: Vec<(usize, usize)>,
}

/// Like `to_vec`, with one NaN for all the NaNs a quaternion can hold (they
/// come out of a square root, so their sign and payload mean nothing).
pub fn to_vec_canonical<T: Serialize + ?Sized>(t: &T) -> R<Vec<u8>> {
    let mut s = Ser { canonical: true, ..Ser::default() };
    t.serialize(&mut s)?;
    Ok(s.out)
}

pub fn to_vec<T: Serialize + ?Sized>(t: &T) -> R<Vec<u8>> {
    let mut s = Ser::default();
    t.serialize(&mut s)?;
    Ok(s.out)
}

impl Ser {
    fn begin(&mut self, n: usize) {
        self.open.push((n, 0));
    }
    fn element(&mut self) {
        if let Some(x) = self.open.last_mut() {
            x.1 += 1;
        }
    }
    fn finish(&mut self) -> R<()> {
        match self.open.pop() {
            Some((a, b)) if a != b => Err(Error(format!("{a} elements announced, {b} written"))),
            _ => Ok(()),
        }
    }
    fn len(&mut self, n: usize) {
        self.out.extend_from_slice(&(n as u32).to_le_bytes());
    }
}

macro_rules! num {
    ($($f:ident $t:ty),*) => { $( fn $f(self, v: $t) -> R<()> { self.out.extend_from_slice(&v.to_le_bytes()); Ok(()) } )* };
}

impl ser::Serializer for &mut Ser {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;

    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
         serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);

    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, v: bool) -> R<()> {
        self.out.push(u8::from(v));
        Ok(())
    }
    fn serialize_f32(self, v: f32) -> R<()> {
        let v = if self.quaternion && v.is_nan() { f32::NAN } else { v };
        self.serialize_u32(v.to_bits())
    }
    fn serialize_f64(self, v: f64) -> R<()> {
        self.serialize_u64(v.to_bits())
    }
    fn serialize_char(self, v: char) -> R<()> {
        self.serialize_u32(v as u32)
    }
    fn serialize_str(self, v: &str) -> R<()> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> R<()> {
        self.len(v.len());
        self.out.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> R<()> {
        self.out.push(0);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R<()> {
        self.out.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> R<()> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> R<()> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> R<()> {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R<()> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> R<()> {
        self.out.extend_from_slice(&i.to_le_bytes());
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> R<Self> {
        let n = n.ok_or_else(|| Error("sequence length unknown".into()))?;
        self.len(n);
        self.begin(n);
        Ok(self)
    }
    fn serialize_tuple(self, n: usize) -> R<Self> {
        self.begin(n);
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> R<Self> {
        self.begin(n);
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, n: usize) -> R<Self> {
        self.begin(n);
        self.out.extend_from_slice(&i.to_le_bytes());
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> R<Self> {
        self.serialize_seq(n)
    }
    fn serialize_struct(self, name: &'static str, n: usize) -> R<Self> {
        self.begin(n);
        self.quaternion = self.canonical && name == "Quaternion";
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, n: usize) -> R<Self> {
        self.begin(n);
        self.out.extend_from_slice(&i.to_le_bytes());
        Ok(self)
    }
}

macro_rules! compound {
    ($($tr:ident $f:ident),*) => { $( impl ser::$tr for &mut Ser {
        type Ok = ();
        type Error = Error;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> { self.element(); v.serialize(&mut **self) }
        fn end(self) -> R<()> { self.finish() }
    } )* };
}
compound!(SerializeSeq serialize_element, SerializeTuple serialize_element,
          SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

macro_rules! named {
    ($($tr:ident),*) => { $( impl ser::$tr for &mut Ser {
        type Ok = ();
        type Error = Error;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> R<()> { self.element(); v.serialize(&mut **self) }
        fn end(self) -> R<()> { self.quaternion = false; self.finish() }
    } )* };
}
named!(SerializeStruct, SerializeStructVariant);

impl ser::SerializeMap for &mut Ser {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> {
        self.element();
        v.serialize(&mut **self)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> {
        v.serialize(&mut **self)
    }
    fn end(self) -> R<()> {
        self.finish()
    }
}

// -------------------------------------------------------------- deserializer

pub struct De<'de> {
    d: &'de [u8],
}

pub fn from_slice<T: de::DeserializeOwned>(d: &[u8]) -> R<T> {
    let mut x = De { d };
    let v = T::deserialize(&mut x)?;
    if x.d.is_empty() { Ok(v) } else { Err(Error(format!("{} bytes left over", x.d.len()))) }
}

impl<'de> De<'de> {
    fn take(&mut self, n: usize) -> R<&'de [u8]> {
        if n > self.d.len() {
            return Err(Error("out of data".into()));
        }
        let (a, b) = self.d.split_at(n);
        self.d = b;
        Ok(a)
    }
    fn u32(&mut self) -> R<u32> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
}

macro_rules! dnum {
    ($($f:ident $v:ident $t:ty),*) => { $( fn $f<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let b = self.take(std::mem::size_of::<$t>())?;
        v.$v(<$t>::from_le_bytes(b.try_into().unwrap()))
    } )* };
}

impl<'de> de::Deserializer<'de> for &mut De<'de> {
    type Error = Error;

    dnum!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32,
          deserialize_i64 visit_i64 i64, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16,
          deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64);

    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> R<V::Value> {
        Err(Error("this format does not describe its values".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> R<V::Value> {
        Err(Error("this format does not describe its values".into()))
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let b = self.take(1)?[0];
        v.visit_bool(b != 0)
    }
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let b = self.u32()?;
        v.visit_f32(f32::from_bits(b))
    }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let b = self.take(8)?;
        v.visit_f64(f64::from_bits(u64::from_le_bytes(b.try_into().unwrap())))
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let b = self.u32()?;
        v.visit_char(char::from_u32(b).ok_or_else(|| Error("char".into()))?)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.u32()? as usize;
        let b = self.take(n)?;
        v.visit_str(std::str::from_utf8(b).map_err(|e| Error(e.to_string()))?)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.u32()? as usize;
        let b = self.take(n)?;
        v.visit_bytes(b)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        if self.take(1)?[0] == 0 { v.visit_none() } else { v.visit_some(self) }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> R<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.u32()? as usize;
        v.visit_seq(Items { de: self, n })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> R<V::Value> {
        v.visit_seq(Items { de: self, n })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> R<V::Value> {
        v.visit_seq(Items { de: self, n })
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> R<V::Value> {
        let n = self.u32()? as usize;
        v.visit_map(Items { de: self, n })
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> R<V::Value> {
        v.visit_seq(Items { de: self, n: f.len() })
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> R<V::Value> {
        v.visit_enum(self)
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> R<V::Value> {
        Err(Error("no identifiers in this format".into()))
    }
}

struct Items<'a, 'de> {
    de: &'a mut De<'de>,
    n: usize,
}

impl<'de> SeqAccess<'de> for Items<'_, 'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> R<Option<T::Value>> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        s.deserialize(&mut *self.de).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.n)
    }
}

impl<'de> MapAccess<'de> for Items<'_, 'de> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> R<Option<K::Value>> {
        if self.n == 0 {
            return Ok(None);
        }
        self.n -= 1;
        s.deserialize(&mut *self.de).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> R<V::Value> {
        s.deserialize(&mut *self.de)
    }
}

impl<'de> EnumAccess<'de> for &mut De<'de> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> R<(V::Value, Self)> {
        let i = self.u32()?;
        let v = s.deserialize(IntoDeserializer::<Error>::into_deserializer(i))?;
        Ok((v, self))
    }
}

impl<'de> VariantAccess<'de> for &mut De<'de> {
    type Error = Error;
    fn unit_variant(self) -> R<()> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> R<T::Value> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> R<V::Value> {
        v.visit_seq(Items { de: self, n })
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> R<V::Value> {
        v.visit_seq(Items { de: self, n: f.len() })
    }
}
