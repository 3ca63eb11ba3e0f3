//! C09: serde Serialize, observed by a serializer that tells every entry point apart.
use crate::support::*;
use serde_crate::ser::{self, Error as _, Impossible, Serialize, Serializer};

#[derive(PartialEq, Debug, Clone, Copy)]
pub struct Er(u64);
impl core::fmt::Display for Er {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
impl core::fmt::Debug for Never { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
pub struct Never;
impl std::error::Error for Er {}
impl ser::Error for Er {
    fn custom<T: core::fmt::Display>(_: T) -> Self { Er(77) }
}
/// Result: (entry point, value ^ serializer identity).
pub struct S(u64);
type Out = Result<(u8, u64), Er>;
type No = Impossible<(u8, u64), Er>;
impl Serializer for S {
    type Ok = (u8, u64);
    type Error = Er;
    type SerializeSeq = No;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    fn serialize_u32(self, v: u32) -> Out { let v = v as u64; if v & 3 == 0 { Err(Er(v ^ self.0)) } else { Ok((1, v ^ self.0)) } }
    fn serialize_u8(self, v: u8) -> Out { Ok((2, v as u64 ^ self.0)) }
    fn serialize_u16(self, v: u16) -> Out { Ok((3, v as u64 ^ self.0)) }
    fn serialize_u64(self, v: u64) -> Out { Ok((4, v as u64 ^ self.0)) }
    fn serialize_bool(self, v: bool) -> Out { Ok((5, v as u64 ^ self.0)) }
    fn serialize_i8(self, v: i8) -> Out { Ok((6, v as u64 ^ self.0)) }
    fn serialize_i16(self, v: i16) -> Out { Ok((7, v as u64 ^ self.0)) }
    fn serialize_i32(self, v: i32) -> Out { Ok((8, v as u64 ^ self.0)) }
    fn serialize_i64(self, v: i64) -> Out { Ok((9, v as u64 ^ self.0)) }
    fn serialize_f32(self, _: f32) -> Out { Ok((10, self.0)) }
    fn serialize_f64(self, _: f64) -> Out { Ok((11, self.0)) }
    fn serialize_char(self, v: char) -> Out { Ok((12, v as u64 ^ self.0)) }
    fn serialize_str(self, v: &str) -> Out { Ok((13, v.len() as u64 ^ self.0)) }
    fn serialize_bytes(self, v: &[u8]) -> Out { Ok((14, v.len() as u64 ^ self.0)) }
    fn serialize_none(self) -> Out { Ok((15, self.0)) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Out { Ok((16, self.0)) }
    fn serialize_unit(self) -> Out { Ok((17, self.0)) }
    fn serialize_unit_struct(self, _: &'static str) -> Out { Ok((18, self.0)) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Out { Ok((19, i as u64 ^ self.0)) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Out { Ok((20, self.0)) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, _: &T) -> Out { Ok((21, i as u64 ^ self.0)) }
    fn serialize_seq(self, _: Option<usize>) -> Result<No, Er> { Err(Er(1)) }
    fn serialize_tuple(self, _: usize) -> Result<No, Er> { Err(Er(2)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Er> { Err(Er(3)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Er> { Err(Er(4)) }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Er> { Err(Er(5)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Er> { Err(Er(6)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Er> { Err(Er(7)) }
    fn collect_str<T: ?Sized + core::fmt::Display>(self, _: &T) -> Out { Ok((22, self.0)) }
}
impl<const K: u8> Serialize for P<'_, K> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let (h, v) = self.hit(1, 0);
        match K {
            0 => z.serialize_u32(v as u32),
            1 => if h & 4 == 0 { z.serialize_u32(v as u32) } else { z.serialize_unit() },
            2 => if h & 4 == 0 { z.serialize_bytes(&self.buf[..2]) } else { Err(Z::Error::custom("x")) },
            _ => z.serialize_u64(v),
        }
    }
}
shapes!(serde::Serialize);
pub mod h {
    use super::*;
    for_shapes! {
        [4] serialize<E>(s) { diff!(s, E, |x| x.serialize(S(s.u64()))) }
    }
}
#[cfg(not(kani))]
pub const TABLES: &[(&str, &[(&str, fn(&mut Src))])] = &[("c09c::h", h::SHAPED)];
