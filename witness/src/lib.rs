//! Monomorphic entry points into ros_pointcloud2 for every provided point type and for a family
//! of derived ones. Nothing here is ever run: the compiler's view of these functions (and of
//! everything they reach) is what the analyses in /verif/engine read.
#![allow(clippy::all, deprecated, dead_code)]
#![cfg_attr(not(feature = "std"), no_std)]
extern crate alloc;
use alloc::vec::Vec;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::PointConvertible;
use ros_pointcloud2::ros::{HeaderMsg, PointFieldMsg, TimeMsg};
use ros_pointcloud2::*;

pub mod shapes;
#[cfg(feature = "serde")]
pub mod ser;

type E = MsgConversionError;

/// Arguments of calls to this function are what a root hands out.
#[inline(never)]
pub fn sink<A>(_: A) {}

macro_rules! roots {
    ($($m:ident $t:ty, $n:literal;)*) => {$(
        pub mod $m {
            use super::*;
            pub type T = $t;
            pub type It = PointCloudIterator<$n, T>;
            pub fn into_vec(m: PointCloud2Msg) -> Result<Vec<T>, E> { m.try_into_vec() }
            pub fn into_iter(m: PointCloud2Msg) -> Result<It, E> { PointCloudIterator::try_from(m) }
            pub fn into_iter_collect(m: PointCloud2Msg) -> Result<Vec<T>, E> { Ok(m.try_into_iter()?.collect()) }
            pub fn it_next(it: &mut It) -> Option<T> { it.next() }
            pub fn it_nth(it: &mut It, n: usize) -> Option<T> { it.nth(n) }
            pub fn it_count(it: It) -> usize { it.count() }
            pub fn it_last(it: It) -> Option<T> { it.last() }
            pub fn it_fold(it: It) -> Vec<T> { it.fold(Vec::new(), |mut v, p| { v.push(p); v }) }
            #[cfg(feature = "rayon")]
            pub fn it_nth_back(it: &mut It, n: usize) -> Option<T> { it.nth_back(n) }
            #[cfg(feature = "rayon")]
            pub fn it_rfold(it: It) -> Vec<T> { it.rfold(Vec::new(), |mut v, p| { v.push(p); v }) }
            pub fn it_hint(it: &It) -> (usize, Option<usize>) { it.size_hint() }
            pub fn it_split(it: It, at: usize) -> (It, It) { it.split_at(at) }
            pub fn from_iter(v: Vec<T>) -> Result<PointCloud2Msg, E> { PointCloud2Msg::try_from_iter(v) }
            pub fn from_vec(v: Vec<T>) -> Result<PointCloud2Msg, E> { PointCloud2Msg::try_from_vec(v) }
            pub fn layout() -> LayoutDescription { <T as PointConvertible<$n>>::layout() }
            pub fn to_fields(p: T) -> RPCL2Point<$n> { p.into() }
            pub fn from_fields(p: RPCL2Point<$n>) -> T { p.into() }
            pub fn default() -> T { Default::default() }
            #[cfg(feature = "rayon")]
            pub fn it_next_back(it: &mut It) -> Option<T> { it.next_back() }
            #[cfg(feature = "rayon")]
            pub fn it_len(it: &It) -> usize { ExactSizeIterator::len(it) }
            #[cfg(feature = "rayon")]
            pub fn it_par_len(it: &It) -> usize { rayon::iter::IndexedParallelIterator::len(it) }
            #[cfg(feature = "rayon")]
            pub fn it_opt_len(it: &It) -> Option<usize> { rayon::iter::ParallelIterator::opt_len(it) }
            #[cfg(feature = "rayon")]
            pub fn it_drive(it: It, c: crate::par::Consumer) { rayon::iter::IndexedParallelIterator::drive(it, c) }
            #[cfg(feature = "rayon")]
            pub fn it_drive_unindexed(it: It, c: crate::par::Consumer) { rayon::iter::ParallelIterator::drive_unindexed(it, c) }
            #[cfg(feature = "rayon")]
            pub fn it_producer(it: It) { rayon::iter::IndexedParallelIterator::with_producer(it, crate::par::Whole) }
            #[cfg(feature = "rayon")]
            pub fn it_producer_split(it: It, at: usize) { rayon::iter::IndexedParallelIterator::with_producer(it, crate::par::Split(at)) }
            #[cfg(feature = "rayon")]
            pub fn into_par_drive(m: PointCloud2Msg, c: crate::par::Consumer) -> Result<(), E> {
                use rayon::iter::ParallelIterator;
                m.try_into_par_iter::<$n, T>()?.drive_unindexed(c);
                Ok(())
            }
            #[cfg(feature = "rayon")]
            pub fn from_par(v: Vec<T>) -> Result<PointCloud2Msg, E> {
                use rayon::iter::IntoParallelIterator;
                PointCloud2Msg::try_from_par_iter(v.into_par_iter())
            }
        }
    )*};
}

roots! {
    xyz PointXYZ, 3;
    xyzi PointXYZI, 4;
    xyzl PointXYZL, 4;
    xyzrgb PointXYZRGB, 4;
    xyzrgba PointXYZRGBA, 5;
    xyzrgbnormal PointXYZRGBNormal, 7;
    xyzinormal PointXYZINormal, 7;
    xyzrgbl PointXYZRGBL, 5;
    xyznormal PointXYZNormal, 6;
    d_mixed shapes::Mixed, 9;
    d_all shapes::All, 8;
    d_single shapes::Single, 1;
    d_aligned shapes::Aligned, 3;
    d_renamed shapes::Renamed, 4;
    d_tight shapes::Tight, 3;
    d_packed shapes::Packed, 3;
    r_small shapes::RustSmall, 2;
    r_mixed shapes::RustMixed, 5;
    r_order shapes::RustOrder, 4;
    r_flip shapes::RustFlip, 3;
}

// The conversions between members and fields only.
macro_rules! slim_roots {
    ($($m:ident $t:ty, $n:literal;)*) => {$(
        pub mod $m {
            use super::*;
            pub type T = $t;
            pub fn layout() -> LayoutDescription { <T as PointConvertible<$n>>::layout() }
            pub fn to_fields(p: T) -> RPCL2Point<$n> { p.into() }
            pub fn from_fields(p: RPCL2Point<$n>) -> T { p.into() }
            pub fn default() -> T { Default::default() }
        }
    )*};
}

slim_roots! {
    d_raw shapes::Raw, 4;
    d_locals shapes::Locals, 9;
    d_long shapes::Long, 16;
    d_cache shapes::Cache, 1;
    d_packed2 shapes::Packed2, 5;
    d_odd shapes::Odd, 5;
}

#[cfg(feature = "rayon")]
pub mod par {
    use rayon::iter::plumbing::*;
    /// Some consumer of points.
    pub struct Consumer;
    pub struct Fold;
    impl<T> rayon::iter::plumbing::Consumer<T> for Consumer {
        type Folder = Fold;
        type Reducer = NoopReducer;
        type Result = ();
        fn split_at(self, _: usize) -> (Self, Self, NoopReducer) { (Consumer, Consumer, NoopReducer) }
        fn into_folder(self) -> Fold { Fold }
        fn full(&self) -> bool { false }
    }
    impl<T> UnindexedConsumer<T> for Consumer {
        fn split_off_left(&self) -> Self { Consumer }
        fn to_reducer(&self) -> NoopReducer { NoopReducer }
    }
    impl<T> Folder<T> for Fold {
        type Result = ();
        fn consume(self, _: T) -> Self { self }
        fn complete(self) {}
        fn full(&self) -> bool { false }
    }
    pub struct NoopReducer;
    impl Reducer<()> for NoopReducer {
        fn reduce(self, _: (), _: ()) {}
    }
    /// Hands out the iterator of the undivided producer.
    pub struct Whole;
    impl<T> ProducerCallback<T> for Whole {
        type Output = ();
        fn callback<P: Producer<Item = T>>(self, p: P) { super::sink(p.into_iter()) }
    }
    /// Hands out the iterators of both halves.
    pub struct Split(pub usize);
    impl<T> ProducerCallback<T> for Split {
        type Output = ();
        fn callback<P: Producer<Item = T>>(self, p: P) {
            let (l, r) = p.split_at(self.0);
            super::sink((l.into_iter(), r.into_iter()))
        }
    }
}

pub mod tables {
    use super::*;
    use core::str::FromStr;
    pub fn size(d: FieldDatatype) -> usize { d.size() }
    pub fn from_code(c: u8) -> Result<FieldDatatype, E> { FieldDatatype::try_from(c) }
    pub fn from_field(f: &PointFieldMsg) -> Result<FieldDatatype, E> { FieldDatatype::try_from(f) }
    pub fn code(d: FieldDatatype) -> u8 { d.into() }
    pub fn from_str(s: &str) -> Result<FieldDatatype, E> { FieldDatatype::from_str(s) }
    pub fn default() -> FieldDatatype { Default::default() }
    macro_rules! names { ($($f:ident $s:literal;)*) => {$( pub fn $f() -> Result<FieldDatatype, E> { FieldDatatype::from_str($s) } )*} }
    names! { n_f32 "f32"; n_f64 "f64"; n_i32 "i32"; n_u8 "u8"; n_u16 "u16"; n_u32 "u32"; n_i8 "i8"; n_i16 "i16"; n_rgb "rgb"; }
}

macro_rules! prims {
    ($($m:ident $t:ty;)*) => {$(
        pub mod $m {
            use super::*;
            pub fn datatype() -> FieldDatatype { <$t as GetFieldDatatype>::field_datatype() }
            pub fn new(v: $t) -> PointData { PointData::new(v) }
            pub fn get(p: &PointData) -> $t { p.get() }
            pub fn roundtrip(v: $t) -> $t { PointData::new(v).get() }
            pub fn to_buffer(v: $t) -> [u8; 8] { PointDataBuffer::from(v).raw() }
            pub fn from_le(b: [u8; 8]) -> $t { <$t as FromBytes>::from_le_bytes(PointDataBuffer::new(b)) }
            pub fn from_be(b: [u8; 8]) -> $t { <$t as FromBytes>::from_be_bytes(PointDataBuffer::new(b)) }
        }
    )*};
}
prims! { p_f32 f32; p_f64 f64; p_i32 i32; p_u8 u8; p_u16 u16; p_u32 u32; p_i8 i8; p_i16 i16; p_rgb RGB; }

macro_rules! prim_from {
    ($($m:ident $t:ty;)*) => { pub mod pd_from { use super::*; $(
        pub fn $m(v: $t) -> $t { PointData::from(v).get() }
    )*} };
}
prim_from! { f_f32 f32; f_f64 f64; f_i32 i32; f_u8 u8; f_u16 u16; f_u32 u32; f_i8 i8; f_i16 i16; }

pub mod buffer {
    use super::*;
    pub fn new(b: [u8; 8]) -> [u8; 8] { PointDataBuffer::new(b).raw() }
    pub fn index(b: [u8; 8], i: usize) -> u8 { PointDataBuffer::new(b)[i] }
    pub fn from_slice4(b: [u8; 4]) -> [u8; 8] { PointDataBuffer::from_slice(&b).raw() }
    pub fn from_array2(b: [u8; 2]) -> [u8; 8] { PointDataBuffer::from(b).raw() }
    pub fn from_array8(b: [u8; 8]) -> [u8; 8] { PointDataBuffer::from(b).raw() }
}

pub mod rgb {
    use super::*;
    pub fn new(r: u8, g: u8, b: u8) -> RGB { RGB::new(r, g, b) }
    pub fn from_f32(v: f32) -> RGB { RGB::new_from_packed_f32(v) }
    pub fn from_u32(v: u32) -> RGB { RGB::new_from_packed(v) }
    pub fn conv_from(v: f32) -> RGB { RGB::from(v) }
    pub fn conv_into(v: RGB) -> f32 { v.into() }
    pub fn raw(v: RGB) -> f32 { v.raw() }
    pub fn r(v: RGB) -> u8 { v.r() }
    pub fn g(v: RGB) -> u8 { v.g() }
    pub fn b(v: RGB) -> u8 { v.b() }
    pub fn set_r(v: &mut RGB, c: u8) { v.set_r(c) }
    pub fn set_g(v: &mut RGB, c: u8) { v.set_g(c) }
    pub fn set_b(v: &mut RGB, c: u8) { v.set_b(c) }
    pub fn eq(v: RGB, w: RGB) -> bool { v == w }
    pub fn ne(v: RGB, w: RGB) -> bool { v != w }
    pub fn default() -> RGB { RGB::default() }
    pub fn display(v: RGB, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Display::fmt(&v, f) }
    pub fn debug(v: RGB, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { core::fmt::Debug::fmt(&v, f) }
}

macro_rules! geo {
    ($($m:ident $t:ty;)*) => {$( pub mod $m { use super::*;
        pub fn xyz(p: $t) -> nalgebra::Point3<f32> { p.xyz() }
        pub fn xyz_f32(p: $t) -> nalgebra::Point3<f32> { p.xyz_f32() }
        pub fn xyz_f64(p: $t) -> nalgebra::Point3<f64> { p.xyz_f64() }
    } )*};
}
geo! { g_xyz PointXYZ; g_xyzi PointXYZI; g_xyzl PointXYZL; g_xyzrgb PointXYZRGB; g_xyzrgba PointXYZRGBA;
    g_xyzrgbnormal PointXYZRGBNormal; g_xyzinormal PointXYZINormal; g_xyzrgbl PointXYZRGBL; g_xyznormal PointXYZNormal; }
macro_rules! colours {
    ($($m:ident $t:ty;)*) => {$( pub mod $m { use super::*;
        pub fn r(p: $t) -> u8 { p.r() }
        pub fn g(p: $t) -> u8 { p.g() }
        pub fn b(p: $t) -> u8 { p.b() }
    } )*};
}
colours! { c_xyzrgb PointXYZRGB; c_xyzrgba PointXYZRGBA; c_xyzrgbnormal PointXYZRGBNormal; c_xyzrgbl PointXYZRGBL; }

pub mod geom {
    use super::*;
    use nalgebra::Point3;
    pub fn of_f32(p: Point3<f32>) -> PointXYZ { p.into() }
    pub fn of_f32_ref(p: &Point3<f32>) -> PointXYZ { p.into() }
    pub fn of_f64(p: Point3<f64>) -> PointXYZ { p.into() }
    pub fn of_f64_ref(p: &Point3<f64>) -> PointXYZ { p.into() }
    pub fn to_f32(p: PointXYZ) -> Point3<f32> { p.into() }
    pub fn to_f32_ref(p: &PointXYZ) -> Point3<f32> { p.into() }
    pub fn to_f64(p: PointXYZ) -> Point3<f64> { p.into() }
    pub fn to_f64_ref(p: &PointXYZ) -> Point3<f64> { p.into() }
    pub fn mk_f32(x: f32, y: f32, z: f32) -> Point3<f32> { Point3::new(x, y, z) }
    pub fn mk_f64(x: f64, y: f64, z: f64) -> Point3<f64> { Point3::new(x, y, z) }
}

pub mod ctors {
    use super::*;
    pub fn xyz(x: f32, y: f32, z: f32) -> PointXYZ { PointXYZ::new(x, y, z) }
    pub fn xyzi(x: f32, y: f32, z: f32, intensity: f32) -> PointXYZI { PointXYZI::new(x, y, z, intensity) }
    pub fn xyzl(x: f32, y: f32, z: f32, label: u32) -> PointXYZL { PointXYZL::new(x, y, z, label) }
    pub fn xyzrgb(x: f32, y: f32, z: f32, r: u8, g: u8, b: u8) -> PointXYZRGB { PointXYZRGB::new(x, y, z, r, g, b) }
    pub fn xyzrgba(x: f32, y: f32, z: f32, r: u8, g: u8, b: u8, a: u8) -> PointXYZRGBA { PointXYZRGBA::new(x, y, z, r, g, b, a) }
    pub fn xyzrgbnormal(x: f32, y: f32, z: f32, rgb: RGB, normal_x: f32, normal_y: f32, normal_z: f32) -> PointXYZRGBNormal { PointXYZRGBNormal::new(x, y, z, rgb, normal_x, normal_y, normal_z) }
    pub fn xyzinormal(x: f32, y: f32, z: f32, intensity: f32, normal_x: f32, normal_y: f32, normal_z: f32) -> PointXYZINormal { PointXYZINormal::new(x, y, z, intensity, normal_x, normal_y, normal_z) }
    pub fn xyzrgbl(x: f32, y: f32, z: f32, r: u8, g: u8, b: u8, label: u32) -> PointXYZRGBL { PointXYZRGBL::new(x, y, z, r, g, b, label) }
    pub fn xyznormal(x: f32, y: f32, z: f32, normal_x: f32, normal_y: f32, normal_z: f32) -> PointXYZNormal { PointXYZNormal::new(x, y, z, normal_x, normal_y, normal_z) }
}

pub mod build {
    use super::*;
    pub fn msg(header: HeaderMsg, width: u32, fields: Vec<PointFieldMsg>, big: bool, point_step: u32, row_step: u32, data: Vec<u8>, dense: bool) -> Result<PointCloud2Msg, E> {
        PointCloud2MsgBuilder::new().header(header).width(width).fields(fields).endian(big).point_step(point_step).row_step(row_step).data(data).dense(dense).build()
    }
    pub fn msg_rev(header: HeaderMsg, width: u32, fields: Vec<PointFieldMsg>, big: bool, point_step: u32, row_step: u32, data: Vec<u8>, dense: bool) -> Result<PointCloud2Msg, E> {
        PointCloud2MsgBuilder::new().dense(dense).data(data).row_step(row_step).point_step(point_step).endian(big).fields(fields).width(width).header(header).build()
    }
    pub fn dims(width: usize) -> Result<CloudDimensions, E> { CloudDimensionsBuilder::new_with_width(width).build() }
    pub fn field_default() -> PointFieldMsg { PointFieldMsg::default() }
    pub fn endian_default() -> Endian { Endian::default() }
}

#[cfg(feature = "ros")]
pub mod rosmsg {
    use super::*;
    use ros2_interfaces_jazzy as jazzy;
    pub fn jazzy_in(m: jazzy::sensor_msgs::msg::PointCloud2) -> PointCloud2Msg { m.into() }
    pub fn jazzy_out(m: PointCloud2Msg) -> jazzy::sensor_msgs::msg::PointCloud2 { m.into() }
    pub fn jazzy_time(m: jazzy::builtin_interfaces::msg::Time) -> TimeMsg { m.into() }
    pub fn jazzy_header(m: jazzy::std_msgs::msg::Header) -> HeaderMsg { m.into() }
    pub fn r2r_in(m: r2r::sensor_msgs::msg::PointCloud2) -> PointCloud2Msg { m.into() }
    pub fn r2r_out(m: PointCloud2Msg) -> r2r::sensor_msgs::msg::PointCloud2 { m.into() }
    pub fn rosrust_in(m: rosrust_msg::sensor_msgs::PointCloud2) -> PointCloud2Msg { m.into() }
    pub fn rosrust_out(m: PointCloud2Msg) -> rosrust_msg::sensor_msgs::PointCloud2 { m.into() }
    pub fn rosrust_time(m: rosrust::Time) -> TimeMsg { m.into() }
}
