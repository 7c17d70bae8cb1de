//! A small JSON form of anything serde can serialise: what a store of snapshots would
//! use. The writer reports every sink error; the reader takes whole values.
use crate::shared::*;
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::{self, Display};
use std::io::{self, Write};

#[derive(Debug)]
pub enum Error {
  Io(io::ErrorKind),
  Msg(String),
}
impl Display for Error {
  fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
    write!(f, "{self:?}")
  }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
  fn custom<T: Display>(m: T) -> Self {
    Error::Msg(m.to_string())
  }
}
impl de::Error for Error {
  fn custom<T: Display>(m: T) -> Self {
    Error::Msg(m.to_string())
  }
}
impl From<io::Error> for Error {
  fn from(e: io::Error) -> Error {
    Error::Io(e.kind())
  }
}

// ---------------------------------------------------------------------- writer
pub struct Ser<W: Write>(pub W);
pub struct Compound<'a, W: Write> {
  s: &'a mut Ser<W>,
  first: bool,
  end: &'static str,
}
impl<W: Write> Ser<W> {
  fn put(&mut self, t: &str) -> Result<(), Error> {
    Ok(self.0.write_all(t.as_bytes())?)
  }
  fn string(&mut self, v: &str) -> Result<(), Error> {
    let mut o = String::from("\"");
    for c in v.chars() {
      match c {
        '"' => o.push_str("\\\""),
        '\\' => o.push_str("\\\\"),
        c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
        c => o.push(c),
      }
    }
    o.push('"');
    self.put(&o)
  }
  fn open(&mut self, t: &str, end: &'static str) -> Result<Compound<'_, W>, Error> {
    self.put(t)?;
    Ok(Compound { s: self, first: true, end })
  }
}
macro_rules! put_num {
  ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), Error> { self.put(&v.to_string()) })* };
}
impl<'a, W: Write> ser::Serializer for &'a mut Ser<W> {
  type Ok = ();
  type Error = Error;
  type SerializeSeq = Compound<'a, W>;
  type SerializeTuple = Compound<'a, W>;
  type SerializeTupleStruct = Compound<'a, W>;
  type SerializeTupleVariant = Compound<'a, W>;
  type SerializeMap = Compound<'a, W>;
  type SerializeStruct = Compound<'a, W>;
  type SerializeStructVariant = Compound<'a, W>;
  put_num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_bool bool, serialize_f32 f32, serialize_f64 f64);
  fn serialize_char(self, v: char) -> Result<(), Error> {
    self.string(&v.to_string())
  }
  fn serialize_str(self, v: &str) -> Result<(), Error> {
    self.string(v)
  }
  fn serialize_bytes(self, v: &[u8]) -> Result<(), Error> {
    v.serialize(self)
  }
  fn serialize_none(self) -> Result<(), Error> {
    self.put("null")
  }
  fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Error> {
    v.serialize(self)
  }
  fn serialize_unit(self) -> Result<(), Error> {
    self.put("null")
  }
  fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> {
    self.put("null")
  }
  fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), Error> {
    self.string(v)
  }
  fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> {
    v.serialize(self)
  }
  fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<(), Error> {
    self.put("{")?;
    self.string(n)?;
    self.put(":")?;
    v.serialize(&mut *self)?;
    self.put("}")
  }
  fn serialize_seq(self, _: Option<usize>) -> Result<Compound<'a, W>, Error> {
    self.open("[", "]")
  }
  fn serialize_tuple(self, _: usize) -> Result<Compound<'a, W>, Error> {
    self.open("[", "]")
  }
  fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Compound<'a, W>, Error> {
    self.open("[", "]")
  }
  fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Compound<'a, W>, Error> {
    self.put("{")?;
    self.string(n)?;
    self.open(":[", "]}")
  }
  fn serialize_map(self, _: Option<usize>) -> Result<Compound<'a, W>, Error> {
    self.open("{", "}")
  }
  fn serialize_struct(self, _: &'static str, _: usize) -> Result<Compound<'a, W>, Error> {
    self.open("{", "}")
  }
  fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Compound<'a, W>, Error> {
    self.put("{")?;
    self.string(n)?;
    self.open(":{", "}}")
  }
}
impl<W: Write> Compound<'_, W> {
  fn sep(&mut self) -> Result<(), Error> {
    if !std::mem::replace(&mut self.first, false) {
      self.s.put(",")?;
    }
    Ok(())
  }
  fn item<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
    self.sep()?;
    v.serialize(&mut *self.s)
  }
  fn pair<T: ?Sized + Serialize>(&mut self, k: &str, v: &T) -> Result<(), Error> {
    self.sep()?;
    self.s.string(k)?;
    self.s.put(":")?;
    v.serialize(&mut *self.s)
  }
  fn close(self) -> Result<(), Error> {
    self.s.put(self.end)
  }
}
macro_rules! seq_like {
  ($($tr:ident $f:ident),*) => { $(impl<W: Write> ser::$tr for Compound<'_, W> {
    type Ok = ();
    type Error = Error;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.item(v) }
    fn end(self) -> Result<(), Error> { self.close() }
  })* };
}
seq_like!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! struct_like {
  ($($tr:ident),*) => { $(impl<W: Write> ser::$tr for Compound<'_, W> {
    type Ok = ();
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> { self.pair(k, v) }
    fn end(self) -> Result<(), Error> { self.close() }
  })* };
}
struct_like!(SerializeStruct, SerializeStructVariant);
impl<W: Write> ser::SerializeMap for Compound<'_, W> {
  type Ok = ();
  type Error = Error;
  fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Error> {
    self.sep()?;
    // JSON keys are strings
    let mut s = Ser(Vec::new());
    k.serialize(&mut s)?;
    let t = String::from_utf8(s.0).map_err(|_| Error::Msg("key".into()))?;
    if t.starts_with('"') {
      self.s.put(&t)
    } else if t.starts_with(['{', '[']) {
      Err(Error::Msg("key must be a string".into()))
    } else {
      self.s.string(&t)
    }
  }
  fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
    self.s.put(":")?;
    v.serialize(&mut *self.s)
  }
  fn end(self) -> Result<(), Error> {
    self.close()
  }
}

// ---------------------------------------------------------------------- reader
#[derive(Debug, Clone, PartialEq)]
pub enum Val {
  Null,
  Bool(bool),
  Num(String),
  Str(String),
  List(Vec<Val>),
  Map(Vec<(String, Val)>),
}
pub fn read(b: &[u8]) -> Result<Val, Error> {
  let s = std::str::from_utf8(b).map_err(|_| Error::Msg("not UTF-8".into()))?;
  let mut p = 0;
  let v = value(s.as_bytes(), &mut p)?;
  if p != b.len() {
    return Err(Error::Msg("something follows the value".into()));
  }
  Ok(v)
}
fn bad<T>(p: usize) -> Result<T, Error> {
  Err(Error::Msg(format!("malformed at {p}")))
}
fn string(b: &[u8], p: &mut usize) -> Result<String, Error> {
  *p += 1;
  let mut o = Vec::new();
  loop {
    match b.get(*p) {
      None => return bad(*p),
      Some(b'"') => {
        *p += 1;
        return String::from_utf8(o).map_err(|_| Error::Msg("not UTF-8".into()));
      }
      Some(b'\\') => {
        match b.get(*p + 1) {
          Some(b'u') => {
            let h = b.get(*p + 2..*p + 6).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
            let Some(h) = h else { return bad(*p) };
            o.push(h);
            *p += 6;
          }
          Some(c) => {
            o.push(*c);
            *p += 2;
          }
          None => return bad(*p),
        };
      }
      Some(c) => {
        o.push(*c);
        *p += 1;
      }
    }
  }
}
fn value(b: &[u8], p: &mut usize) -> Result<Val, Error> {
  match b.get(*p) {
    Some(b'"') => Ok(Val::Str(string(b, p)?)),
    Some(b'[') => {
      *p += 1;
      let mut v = Vec::new();
      if b.get(*p) == Some(&b']') {
        *p += 1;
        return Ok(Val::List(v));
      }
      loop {
        v.push(value(b, p)?);
        *p += 1;
        match b.get(*p - 1) {
          Some(b',') => {}
          Some(b']') => return Ok(Val::List(v)),
          _ => return bad(*p),
        }
      }
    }
    Some(b'{') => {
      *p += 1;
      let mut v = Vec::new();
      if b.get(*p) == Some(&b'}') {
        *p += 1;
        return Ok(Val::Map(v));
      }
      loop {
        if b.get(*p) != Some(&b'"') {
          return bad(*p);
        }
        let k = string(b, p)?;
        if b.get(*p) != Some(&b':') {
          return bad(*p);
        }
        *p += 1;
        v.push((k, value(b, p)?));
        *p += 1;
        match b.get(*p - 1) {
          Some(b',') => {}
          Some(b'}') => return Ok(Val::Map(v)),
          _ => return bad(*p),
        }
      }
    }
    Some(_) => {
      let s = *p;
      while b.get(*p).is_some_and(|c| c.is_ascii_alphanumeric() || b"+-.".contains(c)) {
        *p += 1;
      }
      match &b[s..*p] {
        b"null" => Ok(Val::Null),
        b"true" => Ok(Val::Bool(true)),
        b"false" => Ok(Val::Bool(false)),
        t if t.first().is_some_and(|c| c.is_ascii_digit() || *c == b'-') => Ok(Val::Num(String::from_utf8_lossy(t).into_owned())),
        _ => bad(s),
      }
    }
    None => bad(*p),
  }
}
/// A store may give back the fields of an object in another order.
pub fn shuffle_fields(v: &mut Val) {
  match v {
    Val::List(l) => l.iter_mut().for_each(shuffle_fields),
    Val::Map(m) => {
      for i in 0..m.len() {
        let j = choose(S_FAULT, m.len() as u32) as usize;
        m.swap(i, j);
      }
      m.iter_mut().for_each(|x| shuffle_fields(&mut x.1));
    }
    _ => {}
  }
}
/// Deserialises from a value. `own`: strings are handed over by value, as a reader that
/// decodes escapes does; else borrowed for the time of the call only.
pub struct De {
  pub v: Val,
  pub own: bool,
}
macro_rules! de_any {
  ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { self.deserialize_any(v) })* };
}
impl<'de> de::Deserializer<'de> for De {
  type Error = Error;
  fn deserialize_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> {
    let own = self.own;
    match self.v {
      Val::Null => vis.visit_unit(),
      Val::Bool(b) => vis.visit_bool(b),
      Val::Str(s) if own => vis.visit_string(s),
      Val::Str(s) => vis.visit_str(&s),
      Val::Num(s) => {
        if let Ok(n) = s.parse::<u64>() {
          vis.visit_u64(n)
        } else if let Ok(n) = s.parse::<i64>() {
          vis.visit_i64(n)
        } else {
          vis.visit_f64(s.parse().map_err(|_| Error::Msg(format!("number {s}")))?)
        }
      }
      Val::List(l) => {
        let mut it = Items { it: l.into_iter(), own };
        let r = vis.visit_seq(&mut it)?;
        if it.it.next().is_some() {
          return Err(Error::Msg("list too long".into()));
        }
        Ok(r)
      }
      Val::Map(m) => vis.visit_map(Fields { it: m.into_iter(), val: None, own }),
    }
  }
  fn deserialize_option<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> {
    match self.v {
      Val::Null => vis.visit_none(),
      _ => vis.visit_some(self),
    }
  }
  fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, Error> {
    vis.visit_newtype_struct(self)
  }
  fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], vis: V) -> Result<V::Value, Error> {
    let own = self.own;
    match self.v {
      Val::Str(s) => vis.visit_enum(s.into_deserializer()),
      Val::Map(mut m) if m.len() == 1 => {
        let (k, v) = m.pop().unwrap();
        vis.visit_enum(Variant { k, v, own })
      }
      v => Err(Error::Msg(format!("not a variant: {v:?}"))),
    }
  }
  fn deserialize_ignored_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> {
    vis.visit_unit()
  }
  de_any!(deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes deserialize_byte_buf deserialize_unit deserialize_seq deserialize_map deserialize_identifier);
  fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, Error> {
    self.deserialize_any(vis)
  }
  fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, vis: V) -> Result<V::Value, Error> {
    self.deserialize_any(vis)
  }
  fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, vis: V) -> Result<V::Value, Error> {
    self.deserialize_any(vis)
  }
  fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], vis: V) -> Result<V::Value, Error> {
    self.deserialize_any(vis)
  }
}
struct Items {
  it: std::vec::IntoIter<Val>,
  own: bool,
}
impl<'de> SeqAccess<'de> for &mut Items {
  type Error = Error;
  fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
    let own = self.own;
    self.it.next().map(|v| seed.deserialize(De { v, own })).transpose()
  }
}
struct Fields {
  it: std::vec::IntoIter<(String, Val)>,
  val: Option<Val>,
  own: bool,
}
impl<'de> MapAccess<'de> for Fields {
  type Error = Error;
  fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
    let Some((k, v)) = self.it.next() else { return Ok(None) };
    self.val = Some(v);
    seed.deserialize(De { v: Val::Str(k), own: self.own }).map(Some)
  }
  fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Error> {
    seed.deserialize(De { v: self.val.take().unwrap(), own: self.own })
  }
}
struct Variant {
  k: String,
  v: Val,
  own: bool,
}
impl<'de> EnumAccess<'de> for Variant {
  type Error = Error;
  type Variant = De;
  fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, De), Error> {
    let k = seed.deserialize(De { v: Val::Str(self.k), own: self.own })?;
    Ok((k, De { v: self.v, own: self.own }))
  }
}
impl<'de> VariantAccess<'de> for De {
  type Error = Error;
  fn unit_variant(self) -> Result<(), Error> {
    Err(Error::Msg("unit variant with contents".into()))
  }
  fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Error> {
    seed.deserialize(self)
  }
  fn tuple_variant<V: Visitor<'de>>(self, _: usize, vis: V) -> Result<V::Value, Error> {
    de::Deserializer::deserialize_any(self, vis)
  }
  fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], vis: V) -> Result<V::Value, Error> {
    de::Deserializer::deserialize_any(self, vis)
  }
}
