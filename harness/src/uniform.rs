//! Point types whose fields all have one datatype, or one width: whatever treats a family of datatypes apart shows here.
use crate::nd;
use crate::pts::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::LayoutField as LF;

manual!(UI8, 3, [a: i8 = "a", b: i8 = "b", c: i8 = "c"],
    [LF::new("a", "i8", 1), LF::new("b", "i8", 1), LF::new("c", "i8", 1)],
    #[repr(C)]);
manual!(UU8, 4, [a: u8 = "a", b: u8 = "b", c: u8 = "c", d: u8 = "d"],
    [LF::new("a", "u8", 1), LF::new("b", "u8", 1), LF::new("c", "u8", 1), LF::new("d", "u8", 1)],
    #[repr(C)]);
manual!(UI16, 2, [a: i16 = "a", b: i16 = "b"],
    [LF::new("a", "i16", 2), LF::new("b", "i16", 2)],
    #[repr(C)]);
manual!(UU16, 3, [a: u16 = "a", b: u16 = "b", c: u16 = "c"],
    [LF::new("a", "u16", 2), LF::new("b", "u16", 2), LF::new("c", "u16", 2)],
    #[repr(C)]);
manual!(UI32, 2, [a: i32 = "a", b: i32 = "b"],
    [LF::new("a", "i32", 4), LF::new("b", "i32", 4)],
    #[repr(C)]);
manual!(UU32, 3, [a: u32 = "a", b: u32 = "b", c: u32 = "c"],
    [LF::new("a", "u32", 4), LF::new("b", "u32", 4), LF::new("c", "u32", 4)],
    #[repr(C)]);
manual!(UF32, 2, [a: f32 = "a", b: f32 = "b"],
    [LF::new("a", "f32", 4), LF::new("b", "f32", 4)],
    #[repr(C)]);
manual!(UF64, 2, [a: f64 = "a", b: f64 = "b"],
    [LF::new("a", "f64", 8), LF::new("b", "f64", 8)],
    #[repr(C)]);
manual!(UB, 2, [a: i8 = "a", b: u8 = "b"],
    [LF::new("a", "i8", 1), LF::new("b", "u8", 1)],
    #[repr(C)]);
manual!(UH, 2, [a: u16 = "a", b: i16 = "b"],
    [LF::new("a", "u16", 2), LF::new("b", "i16", 2)],
    #[repr(C)]);
manual!(UW, 3, [a: i32 = "a", b: u32 = "b", c: f32 = "c"],
    [LF::new("a", "i32", 4), LF::new("b", "u32", 4), LF::new("c", "f32", 4)],
    #[repr(C)]);
manual!(UBH, 3, [a: u8 = "a", b: i8 = "b", c: i16 = "c"],
    [LF::new("a", "u8", 1), LF::new("b", "i8", 1), LF::new("c", "i16", 2)],
    #[repr(C)]);
manual!(UWD, 3, [a: f32 = "a", b: i32 = "b", c: f64 = "c"],
    [LF::new("a", "f32", 4), LF::new("b", "i32", 4), LF::new("c", "f64", 8)],
    #[repr(C)]);

// a default that is not zero
#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct UDef {
    pub a: u16,
    pub b: i8,
    pub c: f32,
}
impl Default for UDef {
    fn default() -> Self {
        Self { a: 0xa5a5, b: -1, c: f32::from_bits(0xffc0_0001) }
    }
}
impl From<RPCL2Point<3>> for UDef {
    fn from(p: RPCL2Point<3>) -> Self {
        Self { a: p[0].get(), b: p[1].get(), c: p[2].get() }
    }
}
impl From<UDef> for RPCL2Point<3> {
    fn from(p: UDef) -> Self {
        [p.a.into(), p.b.into(), p.c.into()].into()
    }
}
unsafe impl PointConvertible<3> for UDef {
    fn layout() -> LayoutDescription {
        LayoutDescription::new(&[LF::new("a", "u16", 2), LF::new("b", "i8", 1), LF::padding(1), LF::new("c", "f32", 4)])
    }
}
pt!(UDef, 3, [a: u16 = "a", b: i8 = "b", c: f32 = "c"]);

// more fields than any other type
manual!(UMany, 19, [m0: u8 = "m0", m1: i8 = "m1", m2: u32 = "m2", m3: u16 = "m3", m4: f64 = "m4", m5: i16 = "m5", m6: f32 = "m6", m7: i32 = "m7", m8: u16 = "m8", m9: f64 = "m9", m10: i16 = "m10", m11: f32 = "m11", m12: i32 = "m12", m13: u8 = "m13", m14: i8 = "m14", m15: u32 = "m15", m16: f32 = "m16", m17: i32 = "m17", m18: u8 = "m18"],
    [LF::new("m0", "u8", 1), LF::new("m1", "i8", 1), LF::padding(2), LF::new("m2", "u32", 4), LF::new("m3", "u16", 2), LF::padding(6), LF::new("m4", "f64", 8), LF::new("m5", "i16", 2), LF::padding(2), LF::new("m6", "f32", 4), LF::new("m7", "i32", 4), LF::new("m8", "u16", 2), LF::padding(2), LF::new("m9", "f64", 8), LF::new("m10", "i16", 2), LF::padding(2), LF::new("m11", "f32", 4), LF::new("m12", "i32", 4), LF::new("m13", "u8", 1), LF::new("m14", "i8", 1), LF::padding(2), LF::new("m15", "u32", 4), LF::new("m16", "f32", 4), LF::new("m17", "i32", 4), LF::new("m18", "u8", 1), LF::padding(3)],
    #[repr(C)]);

// names of which some are prefixes, trimmed, shortened or other-case versions of others
manual!(UName, 9, [f0: u16 = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", f1: u16 = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", f2: u16 = "a", f3: u16 = " a", f4: u16 = "a ", f5: u16 = "a\0", f6: u16 = "größe", f7: u16 = "grÖße", f8: u16 = ""],
    [LF::new("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "u16", 2), LF::new("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "u16", 2), LF::new("a", "u16", 2), LF::new(" a", "u16", 2), LF::new("a ", "u16", 2), LF::new("a\0", "u16", 2), LF::new("größe", "u16", 2), LF::new("grÖße", "u16", 2), LF::new("", "u16", 2)],
    #[repr(C)]);
// (the datatypes of a layout may be written in either case)
manual!(UNamePart, 4, [f8: u16 = "", f6: u16 = "größe", f1: u16 = "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", f4: u16 = "a "],
    [LF::new("", "U16", 2), LF::new("größe", "U16", 2), LF::new("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "U16", 2), LF::new("a ", "U16", 2)],
    #[repr(C)]);

macro_rules! by_uni {
    ($ty:expr, $f:path, ($($a:expr),*)) => {
        match $ty {
            0 => { use $f as f; f::<3, UI8>($($a),*) }
            1 => { use $f as f; f::<4, UU8>($($a),*) }
            2 => { use $f as f; f::<2, UI16>($($a),*) }
            3 => { use $f as f; f::<3, UU16>($($a),*) }
            4 => { use $f as f; f::<2, UI32>($($a),*) }
            5 => { use $f as f; f::<3, UU32>($($a),*) }
            6 => { use $f as f; f::<2, UF32>($($a),*) }
            7 => { use $f as f; f::<2, UF64>($($a),*) }
            8 => { use $f as f; f::<2, UB>($($a),*) }
            9 => { use $f as f; f::<2, UH>($($a),*) }
            10 => { use $f as f; f::<3, UW>($($a),*) }
            11 => { use $f as f; f::<3, UBH>($($a),*) }
            12 => { use $f as f; f::<3, UWD>($($a),*) }
            13 => { use $f as f; f::<3, UDef>($($a),*) }
            14 => { use $f as f; f::<19, UMany>($($a),*) }
            _ => { use $f as f; f::<9, UName>($($a),*) }
        }
    };
}

fn near<const N: usize, T: Pt<N>>(dev: u64) {
    crate::anymsg::near_agree::<N, T>(dev, 2, 2 * core::mem::size_of::<T>() as u64)
}

entries! {
    h_uni_rt(mode, n) { let ty = nd::choose(16); by_uni!(ty, crate::roundtrip::rt, (mode, n)) }
    h_uni_written(mode, n) { let ty = nd::choose(16); by_uni!(ty, crate::written::written, (mode, n)) }
    h_uni_own(kind, n, endian) { let ty = nd::choose(16); by_uni!(ty, crate::read::own, (kind, n, endian)) }
    h_uni_near(dev) { let ty = nd::choose(14); by_uni!(ty, near, (dev)) }
}
