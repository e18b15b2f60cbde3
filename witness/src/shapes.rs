//! Derived point types: every primitive, with and without C representation, padding, renames and
//! unrelated attributes.
use ros_pointcloud2::prelude::*;

#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
#[repr(C)]
pub struct Mixed {
    pub x: f32,
    pub y: f32,
    pub z: f32,
    pub t: u32,
    pub ring: u16,
    pub range: u32,
    pub signal: u16,
    pub reflectivity: u16,
    pub near_ir: u8,
}

#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
#[repr(C)]
pub struct All {
    pub a: u8,
    pub b: f64,
    pub c: i8,
    pub d: u16,
    pub e: i32,
    pub f: i16,
    pub g: u32,
    pub h: f32,
}

#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
#[repr(C)]
pub struct Single {
    pub v: u8,
}

#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
#[repr(C, align(32))]
pub struct Aligned {
    pub a: i16,
    pub b: f64,
    pub c: i8,
}

#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
#[repr(C, align(4))]
pub struct Renamed {
    /// The two coordinates trade names.
    #[rpcl2(rename("y"))]
    pub x: f32,
    #[rpcl2(rename("x"))]
    #[allow(unused)]
    pub y: f32,
    /// Only documentation.
    pub z: f32,
    #[doc = "Renamed and documented."]
    #[rpcl2(rename("l"))]
    #[allow(unused)]
    pub label: u8,
}

#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
#[repr(C)]
pub struct Tight {
    pub id: u32,
    #[allow(dead_code)]
    pub a: i16,
    pub b: i16,
}

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C, packed)]
pub struct Packed {
    pub a: u8,
    pub b: f64,
    pub c: u16,
}

#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
pub struct RustSmall {
    pub a: u8,
    pub b: u32,
}

#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
pub struct RustMixed {
    pub a: u8,
    pub b: f64,
    pub c: u16,
    pub d: f32,
    pub e: i8,
}

#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
pub struct RustOrder {
    pub x: f32,
    pub y: f32,
    pub z: f32,
    pub w: u32,
}

#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
pub struct RustFlip {
    pub a: u16,
    pub b: u32,
    pub c: u16,
}

/// Members whose names need the raw form, and visibilities.
#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
#[repr(C)]
pub struct Raw {
    pub r#type: u8,
    r#ref: f32,
    pub(crate) r#x: i16,
    #[rpcl2(rename("fn"))]
    pub(super) r#move: u32,
}

/// Members called like the variables of the generated code.
#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
#[repr(C)]
pub struct Locals {
    pub size: f32,
    pub offset: u8,
    pub fields: i32,
    pub layout_len: u16,
    pub last_field_end: f64,
    pub rename_idx: i8,
    pub rename_arr: u32,
    pub point: i16,
    pub field_info: f32,
}

/// More members than the others have, alternating so that there is padding before nearly each.
#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
#[repr(C)]
pub struct Long {
    pub a0: u8,
    pub a1: u16,
    pub a2: u8,
    pub a3: u32,
    pub a4: u8,
    pub a5: f64,
    pub a6: i8,
    pub a7: f32,
    pub a8: i16,
    pub a9: i32,
    pub a10: i8,
    pub a11: f64,
    pub a12: u8,
    pub a13: u8,
    pub a14: u16,
    pub a15: i8,
}

#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
#[repr(C, align(64))]
pub struct Cache {
    pub only: f64,
}

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C, packed(2))]
pub struct Packed2 {
    pub a: u8,
    pub b: f64,
    pub c: u8,
    pub d: u32,
    pub e: u8,
}

/// Names that are equal up to case, empty, not ASCII, and a rename among many attributes.
#[derive(Clone, Copy, Default, Debug, PartialEq, PointConvertible)]
#[repr(C)]
#[doc(alias = "odd")]
#[allow(non_snake_case)]
pub struct Odd {
    pub X: f32,
    pub x: f32,
    /// one line
    /// and another
    #[doc(hidden)]
    #[allow(unused, dead_code)]
    #[cfg_attr(all(), rpcl2(rename("höhe")))]
    #[cfg_attr(any(), rpcl2(rename("never")))]
    pub h: i16,
    #[rpcl2(rename(""))]
    pub e: u8,
    #[rpcl2(rename("with space"))]
    pub w: i8,
}
