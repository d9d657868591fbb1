//! Point types made by the derive macro in many forms (C19).
use crate::nd::{self, check, cover};
use crate::pts::*;
use ros_pointcloud2::prelude::*;

macro_rules! derived {
    ($(#[$a:meta])* $t:ident, $n:expr, [$($(#[$b:meta])* $v:vis $f:ident : $ty:ty = $name:expr),*]) => {
        #[derive(Clone, Copy, Default, PointConvertible)]
        $(#[$a])*
        pub struct $t { $($(#[$b])* $v $f: $ty),* }
        impl Pt<$n> for $t {
            const F: [Fd; $n] = [$(Fd { name: $name, code: <$ty as Prim>::CODE }),*];
            fn nd() -> Self { Self { $($f: <$ty as Prim>::nd()),* } }
            fn bits(&self) -> [u64; $n] { [$({ let x = self.$f; <$ty as Prim>::bits(x) }),*] }
            fn make(b: [u64; $n]) -> Self {
                let mut i = 0;
                $( let $f = <$ty as Prim>::from_bits64(b[i]); i += 1; )*
                let _ = i;
                Self { $($f),* }
            }
            fn mem() -> [usize; $n] { [$(core::mem::offset_of!($t, $f)),*] }
        }
    };
}

pub(crate) use derived;

// documentation and other attributes on the fields and the struct
derived!(
    /// A documented point.
    #[repr(C)]
    #[allow(dead_code)]
    Doc, 4, [
        /// First, with a comment.
        pub a: u8 = "a",
        pub b: u16 = "b",
        #[allow(dead_code)] pub c: f32 = "c",
        /// several
        /// lines
        #[rpcl2(rename("d d"))]
        #[allow(dead_code)]
        pub d: i8 = "d d"]);
// renames everywhere: swapped names, empty name, unicode
derived!(#[repr(C)] Ren, 5, [
    #[rpcl2(rename("b"))] pub a: i16 = "b",
    #[rpcl2(rename("a"))] pub b: i16 = "a",
    #[rpcl2(rename(""))] pub c: u32 = "",
    pub d: u32 = "d",
    #[rpcl2(rename("größe"))] pub e: f64 = "größe"]);
// every type, padding between most fields
derived!(#[repr(C)] Pad, 8, [
    pub a: u8 = "a", pub b: i16 = "b", pub c: u8 = "c", pub d: f32 = "d", pub e: i8 = "e", pub f: f64 = "f", pub g: u16 = "g", pub h: i32 = "h"]);
// over-aligned
derived!(#[repr(C, align(32))] Al, 3, [pub x: f32 = "x", pub y: u8 = "y", pub z: u32 = "z"]);
// no padding at all
derived!(#[repr(C, packed)] Pk, 4, [pub a: u8 = "a", pub b: f64 = "b", pub c: u16 = "c", pub d: u32 = "d"]);
derived!(#[repr(C, packed(2))] Pk2, 3, [pub a: u8 = "a", pub b: f64 = "b", pub c: u8 = "c"]);
// a single field
derived!(#[repr(C)] One, 1, [pub v: f64 = "v"]);
// field order is left to the compiler
derived!(Rs, 6, [pub a: u8 = "a", pub b: f64 = "b", pub c: u16 = "c", #[rpcl2(rename("q"))] pub d: f32 = "q", pub e: i8 = "e", pub f: u32 = "f"]);
derived!(Rs2, 4, [
    /// documented
    pub a: u8 = "a", pub b: u8 = "b", pub c: u16 = "c", pub d: u32 = "d"]);
// private fields, names that are keywords
derived!(#[repr(C)] Kw, 3, [r#type: u8 = "type", pub(crate) r#in: u32 = "in", t: u16 = "t"]);
// transparent
derived!(#[repr(transparent)] Tr, 1, [pub v: u16 = "v"]);
// names that are not lower-case words
derived!(#[repr(C)] #[allow(non_snake_case)] Up, 7, [
    pub X: f32 = "X", pub fooBar: u16 = "fooBar", _p: u8 = "_p", pub __q: i8 = "__q", pub t_: u32 = "t_", pub a1: f64 = "a1", pub größe: i16 = "größe"]);
derived!(#[repr(C)] Ren2, 9, [
    #[rpcl2(rename(" lead"))] pub a: u8 = " lead",
    #[rpcl2(rename("trail "))] pub b: u16 = "trail ",
    #[rpcl2(rename("MiXeD Case"))] pub c: f32 = "MiXeD Case",
    #[rpcl2(rename("quote\"back\\slash"))] pub d: i8 = "quote\"back\\slash",
    #[rpcl2(rename("a-b.c/d::e"))] pub e: u32 = "a-b.c/d::e",
    #[rpcl2(rename(r#"r#raw"#))] pub f: i16 = "r#raw",
    #[rpcl2(rename("r#type"))] pub g: u8 = "r#type",
    #[rpcl2(rename("{}\n\u{1F600}\u{130}"))] pub h: i32 = "{}\n\u{1F600}\u{130}",
    #[rpcl2(rename("a_name_that_goes_on_and_on_for_much_longer_than_any_name_in_the_wild_would_do"))] pub i: f64 = "a_name_that_goes_on_and_on_for_much_longer_than_any_name_in_the_wild_would_do"]);
// as the message names it already, and twice the length
derived!(#[repr(C)] #[allow(non_camel_case_types)] lower_case, 3, [
    #[rpcl2(rename("b"))] pub b: u8 = "b", pub c: u32 = "c", #[rpcl2(rename("C"))] pub d: u16 = "C"]);
// many fields
derived!(#[repr(C)] Many, 20, [
    pub f0: u8 = "f0", pub f1: u16 = "f1", pub f2: u8 = "f2", pub f3: f64 = "f3", pub f4: i8 = "f4", pub f5: i16 = "f5", pub f6: u32 = "f6", pub f7: i32 = "f7",
    pub f8: f32 = "f8", pub f9: u8 = "f9", pub f10: f64 = "f10", pub f11: u8 = "f11", pub f12: u16 = "f12", pub f13: u8 = "f13", pub f14: u32 = "f14", pub f15: u8 = "f15",
    pub f16: i8 = "f16", pub f17: f32 = "f17", pub f18: i16 = "f18", pub f19: u8 = "f19"]);

macro_rules! by_derived {
    ($ty:expr, $f:ident, ($($a:expr),*)) => {
        match $ty {
            0 => $f::<4, Doc>($($a),*),
            1 => $f::<5, Ren>($($a),*),
            2 => $f::<8, Pad>($($a),*),
            3 => $f::<3, Al>($($a),*),
            4 => $f::<4, Pk>($($a),*),
            5 => $f::<3, Pk2>($($a),*),
            6 => $f::<1, One>($($a),*),
            7 => $f::<3, Kw>($($a),*),
            8 => $f::<1, Tr>($($a),*),
            9 => $f::<6, Rs>($($a),*),
            10 => $f::<4, Rs2>($($a),*),
            11 => $f::<5, DC>($($a),*),
            13 => $f::<7, Up>($($a),*),
            14 => $f::<9, Ren2>($($a),*),
            15 => $f::<3, lower_case>($($a),*),
            16 => $f::<20, Many>($($a),*),
            _ => $f::<4, DR>($($a),*),
        }
    };
}
/// types with a layout that the language fixes
fn fixed(ty: u64) -> bool {
    ty < 9 || ty == 11 || ty > 12
}

/// mode bit 0: write from vec; bit 1: read into vec
pub fn cloud<const N: usize, T: Pt<N>>(ty: u64, mode: u64, n: u64) {
    let mut v = vec![];
    let mut b = vec![];
    for _ in 0..n {
        let p = T::nd();
        b.push(p.bits());
        v.push(p);
    }
    let m = if mode & 1 == 1 { PointCloud2Msg::try_from_vec(v) } else { PointCloud2Msg::try_from_iter(v) };
    let m = match m {
        Ok(m) => m,
        Err(_) => {
            check(false, "writing succeeds");
            return;
        }
    };
    crate::written::described::<N, T>(&m, &b);
    if mode & 1 == 1 && fixed(ty) {
        crate::layout::exact::<N, T>(&m, n as usize);
    }
    let out: Vec<T> = if mode & 2 == 2 {
        match m.try_into_vec() {
            Ok(v) => v,
            Err(_) => {
                check(false, "reading succeeds");
                return;
            }
        }
    } else {
        match m.try_into_iter() {
            Ok(it) => it.collect(),
            Err(_) => {
                check(false, "reading succeeds");
                return;
            }
        }
    };
    check(out.len() == b.len(), "number of points");
    for (x, y) in out.iter().zip(b.iter()) {
        check(x.bits() == *y, "every field kept");
    }
    cover("derived");
}

/// Field-wise conversions of one point.
fn fieldwise<const N: usize, T: Pt<N>>() {
    let p = T::nd();
    let b = p.bits();
    let r: RPCL2Point<N> = p.into();
    for i in 0..N {
        check(crate::layout::stored(&r[i], T::F[i].code) == b[i], "values in declaration order");
    }
    let d: [ros_pointcloud2::PointData; N] = core::array::from_fn(|i| crate::layout::store(b[i], T::F[i].code));
    check(T::from(RPCL2Point::from(d)).bits() == b, "fields in declaration order");
    cover("fieldwise");
}

/// A message with the struct's own memory layout, fields announced in any rotation.
fn raw<const N: usize, T: Pt<N>>(n: u64, big: u64) {
    let rot = nd::choose(N as u64) as usize;
    let at = |i: usize| (i + rot) % N;
    let s = core::mem::size_of::<T>();
    let m = crate::msgs::M {
        names: (0..N).map(|i| T::F[at(i)].name).collect(),
        off: (0..N).map(|i| T::mem()[at(i)] as u32).collect(),
        dt: (0..N).map(|i| T::F[at(i)].code).collect(),
        cnt: vec![1; N],
        big: big == 1,
        width: n as u32,
        height: 1,
        step: s as u32,
        row_step: (s * n as usize) as u32,
        data: nd::bytes(s * n as usize),
        dense: true,
    };
    let idx: [usize; N] = core::array::from_fn(|i| (i + N - rot) % N);
    match m.msg().try_into_vec::<N, T>() {
        Ok(v) => crate::read::compare::<N, T>(&m, &idx, n as usize, &v),
        Err(_) => check(false, "reading succeeds"),
    }
    match m.msg().try_into_iter::<N, T>() {
        Ok(it) => crate::read::compare::<N, T>(&m, &idx, n as usize, &it.collect::<Vec<_>>()),
        Err(_) => check(false, "reading succeeds"),
    }
    cover("raw");
}

entries! {
    h_derived(ty, mode, n) { by_derived!(ty, cloud, (ty, mode, n)) }
    /// two fields of any types (repr(C)), or three around a byte in the middle (repr(Rust))
    h_derived_pair(mode, n) { let k = nd::choose(64); crate::pairs::pair(k, mode, n) }
    h_derived_triple(mode, n) { let k = nd::choose(64); crate::pairs::triple(k, mode, n) }
    h_derived_point(ty) { by_derived!(ty, fieldwise, ()) }
    h_derived_raw(ty, n, big) { by_derived!(ty, raw, (n, big)) }
}
