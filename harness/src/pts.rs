//! Point types used by the harnesses, each with an independent description of its fields.
#![allow(dead_code)]
use crate::nd;
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::*;

/// ROS datatype codes, from the sensor_msgs/PointField definition.
pub const I8: u8 = 1;
pub const U8: u8 = 2;
pub const I16: u8 = 3;
pub const U16: u8 = 4;
pub const I32: u8 = 5;
pub const U32: u8 = 6;
pub const F32: u8 = 7;
pub const F64: u8 = 8;

pub const fn size_of_code(c: u8) -> usize {
    match c {
        1 | 2 => 1,
        3 | 4 => 2,
        5 | 6 | 7 => 4,
        8 => 8,
        _ => 0,
    }
}

pub struct Fd {
    pub name: &'static str,
    pub code: u8,
}
impl Fd {
    pub const fn size(&self) -> usize {
        size_of_code(self.code)
    }
}

pub trait Prim: Copy {
    const CODE: u8;
    fn nd() -> Self;
    fn bits(self) -> u64;
    fn from_bits64(b: u64) -> Self;
}
macro_rules! prim {
    ($t:ty, $c:expr, $nd:expr, |$x:ident| $b:expr, |$y:ident| $f:expr) => {
        impl Prim for $t {
            const CODE: u8 = $c;
            #[inline(never)]
            fn nd() -> Self {
                $nd
            }
            fn bits(self) -> u64 {
                let $x = self;
                $b
            }
            fn from_bits64($y: u64) -> Self {
                $f
            }
        }
    };
}
prim!(i8, I8, nd::u8_() as i8, |x| x as u8 as u64, |b| b as i8);
prim!(u8, U8, nd::u8_(), |x| x as u64, |b| b as u8);
prim!(i16, I16, nd::u16_() as i16, |x| x as u16 as u64, |b| b as i16);
prim!(u16, U16, nd::u16_(), |x| x as u64, |b| b as u16);
prim!(i32, I32, nd::u32_() as i32, |x| x as u32 as u64, |b| b as i32);
prim!(u32, U32, nd::u32_(), |x| x as u64, |b| b as u32);
prim!(f32, F32, f32::from_bits(nd::u32_()), |x| x.to_bits() as u64, |b| f32::from_bits(b as u32));
prim!(f64, F64, f64::from_bits(nd::u64_()), |x| x.to_bits(), |b| f64::from_bits(b));
// RGB is transported as a packed f32.
prim!(RGB, F32, RGB::new_from_packed(nd::u32_()), |x| x.raw().to_bits() as u64, |b| RGB::new_from_packed(b as u32));

pub trait Pt<const N: usize>: PointConvertible<N> + Clone + Send + Sync + 'static {
    const F: [Fd; N];
    fn nd() -> Self;
    fn bits(&self) -> [u64; N];
    fn make(b: [u64; N]) -> Self;
    /// offset in the compiled struct
    fn mem() -> [usize; N];
}

macro_rules! pt {
    ($t:ident, $n:expr, [$($f:ident : $ty:ty = $name:expr),*]) => {
        impl Pt<$n> for $t {
            const F: [Fd; $n] = [$(Fd { name: $name, code: <$ty as Prim>::CODE }),*];
            fn nd() -> Self { Self { $($f: <$ty as Prim>::nd()),* } }
            fn bits(&self) -> [u64; $n] { [$(<$ty as Prim>::bits(self.$f)),*] }
            fn make(b: [u64; $n]) -> Self {
                let mut i = 0;
                $( let $f = <$ty as Prim>::from_bits64(b[i]); i += 1; )*
                let _ = i;
                Self { $($f),* }
            }
            fn mem() -> [usize; $n] { [$(core::mem::offset_of!($t, $f)),*] }
        }
    };
}

pt!(PointXYZ, 3, [x: f32 = "x", y: f32 = "y", z: f32 = "z"]);
pt!(PointXYZI, 4, [x: f32 = "x", y: f32 = "y", z: f32 = "z", intensity: f32 = "intensity"]);
pt!(PointXYZL, 4, [x: f32 = "x", y: f32 = "y", z: f32 = "z", label: u32 = "label"]);
pt!(PointXYZRGB, 4, [x: f32 = "x", y: f32 = "y", z: f32 = "z", rgb: RGB = "rgb"]);
pt!(PointXYZRGBA, 5, [x: f32 = "x", y: f32 = "y", z: f32 = "z", rgb: RGB = "rgb", a: u8 = "a"]);
pt!(PointXYZRGBNormal, 7, [x: f32 = "x", y: f32 = "y", z: f32 = "z", rgb: RGB = "rgb",
    normal_x: f32 = "normal_x", normal_y: f32 = "normal_y", normal_z: f32 = "normal_z"]);
pt!(PointXYZINormal, 7, [x: f32 = "x", y: f32 = "y", z: f32 = "z", intensity: f32 = "intensity",
    normal_x: f32 = "normal_x", normal_y: f32 = "normal_y", normal_z: f32 = "normal_z"]);
pt!(PointXYZRGBL, 5, [x: f32 = "x", y: f32 = "y", z: f32 = "z", rgb: RGB = "rgb", label: u32 = "label"]);
pt!(PointXYZNormal, 6, [x: f32 = "x", y: f32 = "y", z: f32 = "z",
    normal_x: f32 = "normal_x", normal_y: f32 = "normal_y", normal_z: f32 = "normal_z"]);

// ---------------------------------------------------------------- custom, hand-written

macro_rules! manual {
    ($t:ident, $n:expr, [$($f:ident : $ty:ty = $name:expr),*], [$($l:expr),*], $(#[$a:meta])*) => {
        #[derive(Clone, Copy, Default, Debug)]
        $(#[$a])*
        pub struct $t { $(pub $f: $ty),* }
        impl From<RPCL2Point<$n>> for $t {
            fn from(p: RPCL2Point<$n>) -> Self {
                let mut i = 0;
                $( let $f: $ty = p[i].get(); i += 1; )*
                let _ = i;
                Self { $($f),* }
            }
        }
        impl From<$t> for RPCL2Point<$n> {
            fn from(p: $t) -> Self { [$(p.$f.into()),*].into() }
        }
        unsafe impl PointConvertible<$n> for $t {
            fn layout() -> LayoutDescription { LayoutDescription::new(&[$($l),*]) }
        }
        pt!($t, $n, [$($f: $ty = $name),*]);
    };
}

use ros_pointcloud2::LayoutField as LF;

// every field type, padding in the middle and at the end
manual!(MAll, 8, [a: u8 = "a", b: f64 = "b", c: i8 = "c", d: i16 = "d", e: u16 = "e", f: i32 = "f", g: u32 = "g", h: f32 = "h"],
    [LF::new("a", "u8", 1), LF::padding(7), LF::new("b", "f64", 8), LF::new("c", "i8", 1), LF::padding(1),
     LF::new("d", "i16", 2), LF::new("e", "u16", 2), LF::padding(2), LF::new("f", "i32", 4), LF::new("g", "u32", 4), LF::new("h", "f32", 4), LF::padding(4)],
    #[repr(C)]);
// two fields, small: for exhaustive message shapes
manual!(M2, 2, [p: u16 = "p", q: u8 = "q"],
    [LF::new("p", "u16", 2), LF::new("q", "u8", 1), LF::padding(1)],
    #[repr(C)]);
// a single byte
manual!(M1, 1, [v: u8 = "v"], [LF::new("v", "u8", 1)], #[repr(C)]);
// mixed sizes, tightly packed layout
manual!(M3, 3, [a: u8 = "a", b: u8 = "bb", c: u16 = "c"],
    [LF::new("a", "u8", 1), LF::new("bb", "u8", 1), LF::new("c", "u16", 2)],
    #[repr(C)]);
// wide field with trailing padding
manual!(MD, 2, [t: f64 = "t", k: i8 = "k"],
    [LF::new("t", "f64", 8), LF::new("k", "i8", 1), LF::padding(7)],
    #[repr(C)]);
// leading padding (over-aligned, first field not at 0 through a private filler)
#[derive(Clone, Copy, Default, Debug)]
#[repr(C)]
pub struct MLead {
    _fill: u32,
    pub x: u32,
    pub y: u16,
}
impl From<RPCL2Point<2>> for MLead {
    fn from(p: RPCL2Point<2>) -> Self {
        Self { _fill: 0, x: p[0].get(), y: p[1].get() }
    }
}
impl From<MLead> for RPCL2Point<2> {
    fn from(p: MLead) -> Self {
        [p.x.into(), p.y.into()].into()
    }
}
unsafe impl PointConvertible<2> for MLead {
    fn layout() -> LayoutDescription {
        LayoutDescription::new(&[LF::padding(4), LF::new("x", "u32", 4), LF::new("y", "u16", 2), LF::padding(2)])
    }
}
impl Pt<2> for MLead {
    const F: [Fd; 2] = [Fd { name: "x", code: U32 }, Fd { name: "y", code: U16 }];
    fn nd() -> Self {
        Self { _fill: 0, x: nd::u32_(), y: nd::u16_() }
    }
    fn bits(&self) -> [u64; 2] {
        [self.x as u64, self.y as u64]
    }
    fn make(b: [u64; 2]) -> Self {
        Self { _fill: 0, x: b[0] as u32, y: b[1] as u16 }
    }
    fn mem() -> [usize; 2] {
        [core::mem::offset_of!(MLead, x), core::mem::offset_of!(MLead, y)]
    }
}

// ---------------------------------------------------------------- derived

#[derive(Clone, Copy, Default, Debug, PointConvertible)]
#[repr(C)]
pub struct DC {
    pub a: u8,
    pub b: f64,
    pub c: i16,
    #[rpcl2(rename("renamed"))]
    pub d: u32,
    pub e: i8,
}
pt!(DC, 5, [a: u8 = "a", b: f64 = "b", c: i16 = "c", d: u32 = "renamed", e: i8 = "e"]);

// repr(Rust): the compiler reorders the fields
#[derive(Clone, Copy, Default, Debug, PointConvertible)]
pub struct DR {
    pub a: u8,
    pub b: u32,
    pub c: u16,
    pub d: f64,
}
pt!(DR, 4, [a: u8 = "a", b: u32 = "b", c: u16 = "c", d: f64 = "d"]);
