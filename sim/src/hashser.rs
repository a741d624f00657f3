//! A serde Serializer that feeds a 64-bit hash: cheap change detection for library state.
use serde::ser::{self, Serialize};
use std::fmt;

pub struct H(pub u64);
impl H {
    #[inline]
    fn w(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    #[inline]
    fn b(&mut self, v: &[u8]) {
        self.w(v.len() as u64);
        for c in v.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.w(u64::from_le_bytes(x));
        }
    }
}
#[derive(Debug)]
pub struct E;
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("hash")
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(_: T) -> E {
        E
    }
}
pub fn hash<T: Serialize + ?Sized>(v: &T) -> u64 {
    let mut h = H(0x9e37_79b9_7f4a_7c15);
    let _ = v.serialize(&mut h);
    h.0
}
macro_rules! num {
    ($($f:ident $t:ty),*) => { $(#[inline] fn $f(self, v: $t) -> Result<(), E> { self.w(v as u64); Ok(()) })* };
}
impl<'a> ser::Serializer for &'a mut H {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    num!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64,
         serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_char char);
    fn serialize_f32(self, v: f32) -> Result<(), E> {
        self.w(v.to_bits() as u64);
        Ok(())
    }
    fn serialize_f64(self, v: f64) -> Result<(), E> {
        self.w(v.to_bits());
        Ok(())
    }
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.b(v.as_bytes());
        Ok(())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        self.b(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), E> {
        self.w(0x11);
        Ok(())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<(), E> {
        self.w(0x22);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        self.w(0x33);
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        self.w(0x44);
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> {
        self.w(0x55 + ((i as u64) << 8));
        Ok(())
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), E> {
        self.w(0x66 + ((i as u64) << 8));
        v.serialize(self)
    }
    fn serialize_seq(self, l: Option<usize>) -> Result<Self, E> {
        self.w(l.unwrap_or(0) as u64);
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.w(0x77 + ((i as u64) << 8));
        Ok(self)
    }
    fn serialize_map(self, l: Option<usize>) -> Result<Self, E> {
        self.w(l.unwrap_or(0) as u64);
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.w(0x88 + ((i as u64) << 8));
        Ok(self)
    }
}
macro_rules! elems {
    ($($tr:ident $f:ident),*) => { $(impl<'a> ser::$tr for &'a mut H {
        type Ok = ();
        type Error = E;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
        fn end(self) -> Result<(), E> { self.w(0x99); Ok(()) }
    })* };
}
elems!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl<'a> ser::SerializeMap for &'a mut H {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
impl<'a> ser::SerializeStruct for &'a mut H {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
impl<'a> ser::SerializeStructVariant for &'a mut H {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
