//! A positional binary serde format: nothing in it describes itself, so both sides must agree exactly.
use serde::de::{self, DeserializeOwned, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug)]
pub struct Er(pub String);
impl fmt::Display for Er { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Er {}
impl ser::Error for Er { fn custom<T: fmt::Display>(m: T) -> Self { Er(m.to_string()) } }
impl de::Error for Er { fn custom<T: fmt::Display>(m: T) -> Self { Er(m.to_string()) } }
type Rs<T> = Result<T, Er>;

pub fn to_bytes<T: Serialize>(x: &T) -> Rs<Vec<u8>> { let mut w = W(vec![]); x.serialize(&mut w)?; Ok(w.0) }
/// The value and the number of bytes read.
pub fn from_bytes<T: DeserializeOwned>(b: &[u8]) -> Rs<(T, usize)> { let mut r = Rd { b, at: 0 }; let x = T::deserialize(&mut r)?; Ok((x, r.at)) }

struct W(Vec<u8>);
macro_rules! num { ($($f:ident $t:ty),*) => { $( fn $f(self, x: $t) -> Rs<()> { self.0.extend_from_slice(&x.to_le_bytes()); Ok(()) } )* } }
impl<'a> ser::Serializer for &'a mut W {
	type Ok = (); type Error = Er;
	type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeTupleVariant = Self; type SerializeMap = Self; type SerializeStruct = Self; type SerializeStructVariant = Self;
	fn is_human_readable(&self) -> bool { false }
	num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128, serialize_f32 f32, serialize_f64 f64);
	fn serialize_bool(self, x: bool) -> Rs<()> { self.0.push(x as u8); Ok(()) }
	fn serialize_char(self, x: char) -> Rs<()> { self.serialize_u32(x as u32) }
	fn serialize_str(self, x: &str) -> Rs<()> { self.serialize_bytes(x.as_bytes()) }
	fn serialize_bytes(self, x: &[u8]) -> Rs<()> { self.0.extend_from_slice(&(x.len() as u64).to_le_bytes()); self.0.extend_from_slice(x); Ok(()) }
	fn serialize_none(self) -> Rs<()> { self.0.push(0); Ok(()) }
	fn serialize_some<T: Serialize + ?Sized>(self, x: &T) -> Rs<()> { self.0.push(1); x.serialize(self) }
	fn serialize_unit(self) -> Rs<()> { Ok(()) }
	fn serialize_unit_struct(self, _: &'static str) -> Rs<()> { Ok(()) }
	fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Rs<()> { self.serialize_u32(i) }
	fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, x: &T) -> Rs<()> { x.serialize(self) }
	fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, x: &T) -> Rs<()> { (&mut *self).serialize_u32(i)?; x.serialize(self) }
	fn serialize_seq(self, n: Option<usize>) -> Rs<Self> { let n = n.ok_or(Er("no length".into()))?; (&mut *self).serialize_u64(n as u64)?; Ok(self) }
	fn serialize_tuple(self, _: usize) -> Rs<Self> { Ok(self) }
	fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Rs<Self> { Ok(self) }
	fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Rs<Self> { (&mut *self).serialize_u32(i)?; Ok(self) }
	fn serialize_map(self, n: Option<usize>) -> Rs<Self> { self.serialize_seq(n) }
	fn serialize_struct(self, _: &'static str, _: usize) -> Rs<Self> { Ok(self) }
	fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Rs<Self> { (&mut *self).serialize_u32(i)?; Ok(self) }
}
macro_rules! seqs { ($($tr:ident $f:ident),*) => { $( impl<'a> ser::$tr for &'a mut W { type Ok = (); type Error = Er; fn $f<T: Serialize + ?Sized>(&mut self, x: &T) -> Rs<()> { x.serialize(&mut **self) } fn end(self) -> Rs<()> { Ok(()) } } )* } }
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl<'a> ser::SerializeMap for &'a mut W { type Ok = (); type Error = Er; fn serialize_key<T: Serialize + ?Sized>(&mut self, x: &T) -> Rs<()> { x.serialize(&mut **self) } fn serialize_value<T: Serialize + ?Sized>(&mut self, x: &T) -> Rs<()> { x.serialize(&mut **self) } fn end(self) -> Rs<()> { Ok(()) } }
macro_rules! structs { ($($tr:ident),*) => { $( impl<'a> ser::$tr for &'a mut W { type Ok = (); type Error = Er; fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, x: &T) -> Rs<()> { x.serialize(&mut **self) } fn end(self) -> Rs<()> { Ok(()) } } )* } }
structs!(SerializeStruct, SerializeStructVariant);

struct Rd<'b> { b: &'b [u8], at: usize }
impl<'b> Rd<'b> {
	fn take(&mut self, n: usize) -> Rs<&'b [u8]> { if n > self.b.len() - self.at { return Err(Er("end of input".into())) } let s = &self.b[self.at..self.at + n]; self.at += n; Ok(s) }
	fn u32(&mut self) -> Rs<u32> { let mut x = [0; 4]; x.copy_from_slice(self.take(4)?); Ok(u32::from_le_bytes(x)) }
	fn u64(&mut self) -> Rs<u64> { let mut x = [0; 8]; x.copy_from_slice(self.take(8)?); Ok(u64::from_le_bytes(x)) }
	fn bytes(&mut self) -> Rs<&'b [u8]> { let n = self.u64()?; if n > self.b.len() as u64 { return Err(Er("end of input".into())) } self.take(n as usize) }
}
macro_rules! dnum { ($($f:ident $v:ident $t:ty),*) => { $( fn $f<Vi: Visitor<'de>>(self, v: Vi) -> Rs<Vi::Value> { let mut x = [0; std::mem::size_of::<$t>()]; x.copy_from_slice(self.take(std::mem::size_of::<$t>())?); v.$v(<$t>::from_le_bytes(x)) } )* } }
struct Some_<'a, 'b> { r: &'a mut Rd<'b>, left: usize }
impl<'a, 'b, 'de> de::SeqAccess<'de> for Some_<'a, 'b> {
	type Error = Er;
	fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Rs<Option<S::Value>> { if self.left == 0 { return Ok(None) } self.left -= 1; s.deserialize(&mut *self.r).map(Some) }
	fn size_hint(&self) -> Option<usize> { Some(self.left.min(1 << 12)) }
}
struct Var<'a, 'b> { r: &'a mut Rd<'b> }
impl<'a, 'b, 'de> de::EnumAccess<'de> for Var<'a, 'b> {
	type Error = Er; type Variant = Self;
	fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Rs<(S::Value, Self)> { let i = self.r.u32()?; let d: de::value::U32Deserializer<Er> = i.into_deserializer(); Ok((s.deserialize(d)?, self)) }
}
impl<'a, 'b, 'de> de::VariantAccess<'de> for Var<'a, 'b> {
	type Error = Er;
	fn unit_variant(self) -> Rs<()> { Ok(()) }
	fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Rs<S::Value> { s.deserialize(self.r) }
	fn tuple_variant<Vi: Visitor<'de>>(self, n: usize, v: Vi) -> Rs<Vi::Value> { v.visit_seq(Some_ { r: self.r, left: n }) }
	fn struct_variant<Vi: Visitor<'de>>(self, f: &'static [&'static str], v: Vi) -> Rs<Vi::Value> { v.visit_seq(Some_ { r: self.r, left: f.len() }) }
}
impl<'de, 'a, 'b> de::Deserializer<'de> for &'a mut Rd<'b> {
	type Error = Er;
	fn is_human_readable(&self) -> bool { false }
	fn deserialize_any<Vi: Visitor<'de>>(self, _: Vi) -> Rs<Vi::Value> { Err(Er("the format does not describe itself".into())) }
	fn deserialize_ignored_any<Vi: Visitor<'de>>(self, v: Vi) -> Rs<Vi::Value> { self.deserialize_any(v) }
	fn deserialize_identifier<Vi: Visitor<'de>>(self, v: Vi) -> Rs<Vi::Value> { self.deserialize_any(v) }
	dnum!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_i128 visit_i128 i128, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64, deserialize_u128 visit_u128 u128, deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64);
	fn deserialize_bool<Vi: Visitor<'de>>(self, v: Vi) -> Rs<Vi::Value> { match self.take(1)?[0] { 0 => v.visit_bool(false), 1 => v.visit_bool(true), _ => Err(Er("bool".into())) } }
	fn deserialize_char<Vi: Visitor<'de>>(self, v: Vi) -> Rs<Vi::Value> { let c = self.u32()?; v.visit_char(std::char::from_u32(c).ok_or(Er("char".into()))?) }
	fn deserialize_str<Vi: Visitor<'de>>(self, v: Vi) -> Rs<Vi::Value> { v.visit_str(std::str::from_utf8(self.bytes()?).map_err(|_| Er("utf8".into()))?) }
	fn deserialize_string<Vi: Visitor<'de>>(self, v: Vi) -> Rs<Vi::Value> { self.deserialize_str(v) }
	fn deserialize_bytes<Vi: Visitor<'de>>(self, v: Vi) -> Rs<Vi::Value> { v.visit_bytes(self.bytes()?) }
	fn deserialize_byte_buf<Vi: Visitor<'de>>(self, v: Vi) -> Rs<Vi::Value> { self.deserialize_bytes(v) }
	fn deserialize_option<Vi: Visitor<'de>>(self, v: Vi) -> Rs<Vi::Value> { match self.take(1)?[0] { 0 => v.visit_none(), 1 => v.visit_some(self), _ => Err(Er("option".into())) } }
	fn deserialize_unit<Vi: Visitor<'de>>(self, v: Vi) -> Rs<Vi::Value> { v.visit_unit() }
	fn deserialize_unit_struct<Vi: Visitor<'de>>(self, _: &'static str, v: Vi) -> Rs<Vi::Value> { v.visit_unit() }
	fn deserialize_newtype_struct<Vi: Visitor<'de>>(self, _: &'static str, v: Vi) -> Rs<Vi::Value> { v.visit_newtype_struct(self) }
	fn deserialize_seq<Vi: Visitor<'de>>(self, v: Vi) -> Rs<Vi::Value> { let n = self.u64()?; if n > 1 << 20 { return Err(Er("long".into())) } v.visit_seq(Some_ { r: self, left: n as usize }) }
	fn deserialize_tuple<Vi: Visitor<'de>>(self, n: usize, v: Vi) -> Rs<Vi::Value> { v.visit_seq(Some_ { r: self, left: n }) }
	fn deserialize_tuple_struct<Vi: Visitor<'de>>(self, _: &'static str, n: usize, v: Vi) -> Rs<Vi::Value> { self.deserialize_tuple(n, v) }
	fn deserialize_map<Vi: Visitor<'de>>(self, v: Vi) -> Rs<Vi::Value> { self.deserialize_any(v) }
	fn deserialize_struct<Vi: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: Vi) -> Rs<Vi::Value> { self.deserialize_tuple(f.len(), v) }
	fn deserialize_enum<Vi: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: Vi) -> Rs<Vi::Value> { v.visit_enum(Var { r: self }) }
}
