//! A data format that says what is written under which key and hands out what is read under which
//! key. It does nothing: what its calls receive is what the analysis looks at.
use crate::*;
use alloc::string::String;
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant, SerializeStructVariant, Serializer};
use serde::Deserialize;

#[derive(Debug)]
pub struct Bad;
impl core::fmt::Display for Bad {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
impl core::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: core::fmt::Display>(_: T) -> Self { Bad }
}
impl de::Error for Bad {
    fn custom<T: core::fmt::Display>(_: T) -> Self { Bad }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self { Bad }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self { Bad }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self { Bad }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self { Bad }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self { Bad }
    fn missing_field(_: &'static str) -> Self { Bad }
    fn duplicate_field(_: &'static str) -> Self { Bad }
}

// What the analysis replaces by its own reading.
#[inline(never)] pub fn human() -> bool { true }
#[inline(never)] pub fn out_open() {}
#[inline(never)] pub fn out_key(_: &str) {}
#[inline(never)] pub fn out_skip(_: &str) {}
#[inline(never)] pub fn out_close() {}
#[inline(never)] pub fn out<A>(_: A) {}
#[inline(never)] pub fn out_str(_: &str) {}
#[inline(never)] pub fn out_seq<I>(_: I) {}
#[inline(never)] pub fn out_variant(_: &str) {}
#[inline(never)] pub fn out_other() {}
#[inline(never)] pub fn take<A>(_: &str) -> A { loop {} }
#[inline(never)] pub fn take_seq<V, A>(_: &str) -> A { loop {} }
#[inline(never)] pub fn take_struct<V, A>(_: &str) -> A { loop {} }
#[inline(never)] pub fn take_other() {}
#[inline(never)] pub fn keys(k: &'static [&'static str]) -> &'static [&'static str] { k }
#[inline(never)] pub fn name(k: &'static [&'static str]) -> &'static str { k[0] }

pub struct W;
macro_rules! prims { ($($f:ident $t:ty),*) => {$( fn $f(self, v: $t) -> Result<(), Bad> { out::<$t>(v); Ok(()) } )*} }
impl Serializer for W {
    type Ok = ();
    type Error = Bad;
    fn is_human_readable(&self) -> bool { human() }
    type SerializeSeq = W;
    type SerializeTuple = W;
    type SerializeTupleStruct = W;
    type SerializeTupleVariant = W;
    type SerializeMap = W;
    type SerializeStruct = W;
    type SerializeStructVariant = W;
    prims!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char);
    fn serialize_str(self, v: &str) -> Result<(), Bad> { out_str(v); Ok(()) }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Bad> { out_seq(v); Ok(()) }
    fn serialize_none(self) -> Result<(), Bad> { out_other(); Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Bad> { out_other(); Ok(()) }
    fn serialize_unit(self) -> Result<(), Bad> { out_other(); Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Bad> { out_other(); Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), Bad> { out_variant(v); Ok(()) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Bad> { v.serialize(W) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Bad> { out_other(); Ok(()) }
    fn serialize_seq(self, _: Option<usize>) -> Result<W, Bad> { out_other(); Ok(W) }
    fn serialize_tuple(self, _: usize) -> Result<W, Bad> { out_other(); Ok(W) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<W, Bad> { out_other(); Ok(W) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<W, Bad> { out_other(); Ok(W) }
    fn serialize_map(self, _: Option<usize>) -> Result<W, Bad> { out_open(); Ok(W) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<W, Bad> { out_open(); Ok(W) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<W, Bad> { out_other(); Ok(W) }
    fn collect_seq<I: IntoIterator>(self, i: I) -> Result<(), Bad> where I::Item: Serialize { out_seq(i); Ok(()) }
    fn collect_str<T: ?Sized + core::fmt::Display>(self, _: &T) -> Result<(), Bad> { out_other(); Ok(()) }
}
impl SerializeStruct for W {
    type Ok = ();
    type Error = Bad;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Bad> { out_key(k); v.serialize(W) }
    fn skip_field(&mut self, k: &'static str) -> Result<(), Bad> { out_skip(k); Ok(()) }
    fn end(self) -> Result<(), Bad> { out_close(); Ok(()) }
}
impl SerializeMap for W {
    type Ok = ();
    type Error = Bad;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, _: &T) -> Result<(), Bad> { out_other(); Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Bad> { v.serialize(W) }
    fn end(self) -> Result<(), Bad> { out_close(); Ok(()) }
}
macro_rules! nothing { ($($tr:ident $f:ident $(($k:ty))?),*) => {$(
    impl $tr for W {
        type Ok = ();
        type Error = Bad;
        fn $f<T: ?Sized + Serialize>(&mut self, $(_: $k,)? _: &T) -> Result<(), Bad> { out_other(); Ok(()) }
        fn end(self) -> Result<(), Bad> { Ok(()) }
    }
)*} }
nothing!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field, SerializeStructVariant serialize_field (&'static str));

/// Hands out the key.
pub struct Key(&'static str);
impl<'de> Deserializer<'de> for Key {
    type Error = Bad;
    fn is_human_readable(&self) -> bool { human() }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> { v.visit_str(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

/// Hands out the value under a key.
pub struct Val(&'static str);
macro_rules! takes { ($($f:ident $v:ident $t:ty),*) => {$( fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> { v.$v(take::<$t>(self.0)) } )*} }
macro_rules! unsupported { ($($f:ident $(($($t:ty),*))?),*) => {$( fn $f<V: Visitor<'de>>(self, $($(_: $t,)*)? _: V) -> Result<V::Value, Bad> { take_other(); Err(Bad) } )*} }
impl<'de> Deserializer<'de> for Val {
    type Error = Bad;
    fn is_human_readable(&self) -> bool { human() }
    takes!(deserialize_bool visit_bool bool, deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64, deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64, deserialize_char visit_char char, deserialize_string visit_string String);
    unsupported!(deserialize_any, deserialize_str, deserialize_option, deserialize_unit, deserialize_unit_struct(&'static str), deserialize_tuple(usize), deserialize_tuple_struct(&'static str, usize), deserialize_map, deserialize_identifier);
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> { v.visit_unit() }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> { v.visit_newtype_struct(self) }
    fn deserialize_seq<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> { Ok(take_seq::<V, V::Value>(self.0)) }
    fn deserialize_bytes<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> { Ok(take_seq::<V, V::Value>(self.0)) }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, _: V) -> Result<V::Value, Bad> { Ok(take_seq::<V, V::Value>(self.0)) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Bad> { Ok(take_struct::<V, V::Value>(self.0)) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Bad> { Ok(take_struct::<V, V::Value>(self.0)) }
}

/// A whole value: `SKIP` is the entry that is left out, `SEQ` hands entries out by position. The
/// entries are those that the analysis found to be written.
pub struct R<const SKIP: usize, const SEQ: bool>;
pub struct Entries<const SKIP: usize> {
    keys: &'static [&'static str],
    at: usize,
}
impl<'de, const SKIP: usize> MapAccess<'de> for Entries<SKIP> {
    type Error = Bad;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Bad> {
        if self.at == SKIP {
            self.at += 1;
        }
        if self.at < self.keys.len() {
            self.at += 1;
            Ok(Some(seed.deserialize(Key(self.keys[self.at - 1]))?))
        } else {
            Ok(None)
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, Bad> { seed.deserialize(Val(self.keys[self.at - 1])) }
}
impl<'de, const SKIP: usize> SeqAccess<'de> for Entries<SKIP> {
    type Error = Bad;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, Bad> {
        if self.at == SKIP {
            return Ok(None);
        }
        self.at += 1;
        Ok(Some(seed.deserialize(Val(PLACES[self.at - 1]))?))
    }
}
pub const PLACES: &[&str] = &["#0", "#1", "#2", "#3", "#4", "#5", "#6", "#7", "#8", "#9", "#10", "#11", "#12", "#13", "#14", "#15", "#16", "#17", "#18", "#19", "#20", "#21", "#22", "#23", "#24", "#25", "#26", "#27", "#28", "#29", "#30", "#31"];
macro_rules! direct { ($($f:ident),*) => {$( fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Bad> { Val("").$f(v) } )*} }
impl<'de, const SKIP: usize, const SEQ: bool> Deserializer<'de> for R<SKIP, SEQ> {
    type Error = Bad;
    fn is_human_readable(&self) -> bool { human() }
    direct!(deserialize_bool, deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_f32, deserialize_f64, deserialize_char, deserialize_string, deserialize_seq, deserialize_bytes, deserialize_byte_buf, deserialize_any, deserialize_str, deserialize_option, deserialize_unit, deserialize_identifier, deserialize_ignored_any);
    unsupported!(deserialize_unit_struct(&'static str), deserialize_tuple(usize), deserialize_tuple_struct(&'static str, usize), deserialize_map);
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Bad> { v.visit_newtype_struct(self) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, keys: &'static [&'static str], v: V) -> Result<V::Value, Bad> {
        let e = Entries::<SKIP> { keys: crate::ser::keys(keys), at: 0 };
        if SEQ { v.visit_seq(e) } else { v.visit_map(e) }
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, variants: &'static [&'static str], v: V) -> Result<V::Value, Bad> { v.visit_enum(Chosen(name(variants))) }
}
pub struct Chosen(&'static str);
impl<'de> EnumAccess<'de> for Chosen {
    type Error = Bad;
    type Variant = Unit;
    fn variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<(S::Value, Unit), Bad> {
        Ok((seed.deserialize(Key(self.0))?, Unit))
    }
}
pub struct Unit;
impl<'de> VariantAccess<'de> for Unit {
    type Error = Bad;
    fn unit_variant(self) -> Result<(), Bad> { Ok(()) }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, _: S) -> Result<S::Value, Bad> { Err(Bad) }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Bad> { Err(Bad) }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Bad> { Err(Bad) }
}

macro_rules! serial {
    ($($m:ident $t:ty: $($r:ident $n:literal),*;)*) => {$(
        pub mod $m {
            use super::*;
            pub type T = $t;
            pub fn write(v: &T) { let _ = v.serialize(W); }
            pub fn by_key() -> Result<T, Bad> { T::deserialize(R::<1000, false>) }
            pub fn by_place() -> Result<T, Bad> { T::deserialize(R::<1000, true>) }
            $(pub fn $r() -> Result<T, Bad> { T::deserialize(R::<$n, false>) })*
        }
    )*};
}
serial! {
    s_msg PointCloud2Msg: w0 0, w1 1, w2 2, w3 3, w4 4, w5 5, w6 6, w7 7;
    s_dims CloudDimensions: w0 0, w1 1;
    s_header HeaderMsg: w0 0, w1 1, w2 2;
    s_time TimeMsg: w0 0, w1 1;
    s_field PointFieldMsg: w0 0, w1 1, w2 2, w3 3;
    s_endian Endian:;
    s_dense Denseness:;
    s_rgb points::RGB:;
    s_xyz PointXYZ: w0 0, w1 1, w2 2;
    s_xyzi PointXYZI: w0 0, w1 1, w2 2, w3 3;
    s_xyzl PointXYZL: w0 0, w1 1, w2 2, w3 3;
    s_xyzrgb PointXYZRGB: w0 0, w1 1, w2 2, w3 3;
    s_xyzrgba PointXYZRGBA: w0 0, w1 1, w2 2, w3 3, w4 4;
    s_xyzrgbnormal PointXYZRGBNormal: w0 0, w1 1, w2 2, w3 3, w4 4, w5 5, w6 6;
    s_xyzinormal PointXYZINormal: w0 0, w1 1, w2 2, w3 3, w4 4, w5 5, w6 6;
    s_xyzrgbl PointXYZRGBL: w0 0, w1 1, w2 2, w3 3, w4 4;
    s_xyznormal PointXYZNormal: w0 0, w1 1, w2 2, w3 3, w4 4, w5 5;
}
