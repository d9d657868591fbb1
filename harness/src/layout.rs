//! The predefined points (C20).
use crate::nd::{self, check, cover, emit};
use crate::pts::*;
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::PointData;

/// Value of a field as stored in a PointData, by datatype code.
pub fn stored(d: &PointData, code: u8) -> u64 {
    match code {
        I8 => Prim::bits(d.get::<i8>()),
        U8 => Prim::bits(d.get::<u8>()),
        I16 => Prim::bits(d.get::<i16>()),
        U16 => Prim::bits(d.get::<u16>()),
        I32 => Prim::bits(d.get::<i32>()),
        U32 => Prim::bits(d.get::<u32>()),
        F32 => Prim::bits(d.get::<f32>()),
        _ => Prim::bits(d.get::<f64>()),
    }
}
pub fn store(b: u64, code: u8) -> PointData {
    match code {
        I8 => PointData::new(<i8 as Prim>::from_bits64(b)),
        U8 => PointData::new(<u8 as Prim>::from_bits64(b)),
        I16 => PointData::new(<i16 as Prim>::from_bits64(b)),
        U16 => PointData::new(<u16 as Prim>::from_bits64(b)),
        I32 => PointData::new(<i32 as Prim>::from_bits64(b)),
        U32 => PointData::new(<u32 as Prim>::from_bits64(b)),
        F32 => PointData::new(<f32 as Prim>::from_bits64(b)),
        _ => PointData::new(<f64 as Prim>::from_bits64(b)),
    }
}

/// Message of a block-copied cloud: the description must be the compiled layout.
pub fn exact<const N: usize, T: Pt<N>>(m: &PointCloud2Msg, n: usize) {
    let mem = T::mem();
    check(m.point_step as usize == core::mem::size_of::<T>(), "the described size is the size of the struct");
    check(m.fields.len() == N, "all fields are described");
    for i in 0..N.min(m.fields.len()) {
        check(m.fields[i].name == T::F[i].name, "field name");
        check(m.fields[i].datatype == T::F[i].code, "field datatype");
        check(m.fields[i].offset as usize == mem[i], "the described offset is the offset in memory");
    }
    check(m.data.len() == n * core::mem::size_of::<T>(), "data size");
}

/// The bytes of the struct at the place of a field.
pub fn memory<const N: usize, T: Pt<N>>(p: &T) -> [u64; N] {
    let mem = T::mem();
    let mut r = [0; N];
    let base = p as *const T as *const u8;
    for i in 0..N {
        for j in 0..T::F[i].size() {
            r[i] |= unsafe { *base.add(mem[i] + j) as u64 } << (8 * j);
        }
    }
    r
}

fn layout<const N: usize, T: Pt<N>>(n: u64) {
    let mut v = vec![];
    let mut b = vec![];
    for _ in 0..n {
        let p = T::nd();
        b.push(p.bits());
        check(memory::<N, T>(&p) == p.bits(), "the bytes of a field lie at its offset");
        v.push(p);
    }
    // raw copy out
    match PointCloud2Msg::try_from_vec(v.clone()) {
        Ok(m) => {
            exact::<N, T>(&m, n as usize);
            crate::written::described::<N, T>(&m, &b);
        }
        Err(_) => check(false, "writing succeeds"),
    }
    // field by field
    match PointCloud2Msg::try_from_iter(v.clone()) {
        Ok(m) => crate::written::described::<N, T>(&m, &b),
        Err(_) => check(false, "writing succeeds"),
    }
    for (p, x) in v.iter().zip(b.iter()) {
        let r: RPCL2Point<N> = p.clone().into();
        for i in 0..N {
            check(stored(&r[i], T::F[i].code) == x[i], "the value of the field of this place");
        }
        let d: [PointData; N] = core::array::from_fn(|i| store(x[i], T::F[i].code));
        let q = T::from(RPCL2Point::from(d));
        check(q.bits() == *x, "the field gets the value of its place");
    }
    // raw copy in: the struct's own layout
    let m = crate::msgs::M {
        names: T::F.iter().map(|f| f.name).collect(),
        off: T::mem().iter().map(|o| *o as u32).collect(),
        dt: T::F.iter().map(|f| f.code).collect(),
        cnt: vec![1; N],
        big: false,
        width: n as u32,
        height: 1,
        step: core::mem::size_of::<T>() as u32,
        row_step: (core::mem::size_of::<T>() * n as usize) as u32,
        data: nd::bytes(core::mem::size_of::<T>() * n as usize),
        dense: true,
    };
    let idx: [usize; N] = core::array::from_fn(|i| i);
    match m.msg().try_into_vec::<N, T>() {
        Ok(v) => crate::read::compare::<N, T>(&m, &idx, n as usize, &v),
        Err(_) => check(false, "reading succeeds"),
    }
    match m.msg().try_into_iter::<N, T>() {
        Ok(it) => crate::read::compare::<N, T>(&m, &idx, n as usize, &it.collect::<Vec<_>>()),
        Err(_) => check(false, "reading succeeds"),
    }
    cover("layout");
}

fn eqf(a: f32, b: u32, msg: &'static str) {
    check(a.to_bits() == b, msg);
    emit(a.to_bits() as u64);
}
fn f(b: u32) -> f32 {
    f32::from_bits(b)
}

fn constructors() {
    let u = nd::u32_;
    let (x, y, z, i, nx, ny, nz, l) = (u(), u(), u(), u(), u(), u(), u(), u());
    let (r, g, b, a) = (nd::u8_(), nd::u8_(), nd::u8_(), nd::u8_());
    macro_rules! xyz {
        ($p:expr) => {{
            let p = &$p;
            eqf(p.x, x, "x");
            eqf(p.y, y, "y");
            eqf(p.z, z, "z");
        }};
    }
    macro_rules! normal {
        ($p:expr) => {{
            let p = &$p;
            eqf(p.normal_x, nx, "normal_x");
            eqf(p.normal_y, ny, "normal_y");
            eqf(p.normal_z, nz, "normal_z");
        }};
    }
    macro_rules! color {
        ($p:expr) => {{
            let p = &$p;
            check(p.r() == r && p.rgb.r() == r, "red");
            check(p.g() == g && p.rgb.g() == g, "green");
            check(p.b() == b && p.rgb.b() == b, "blue");
            eqf(p.rgb.raw(), (r as u32) << 16 | (g as u32) << 8 | b as u32, "packed color");
        }};
    }
    xyz!(PointXYZ::new(f(x), f(y), f(z)));
    let p = PointXYZI::new(f(x), f(y), f(z), f(i));
    xyz!(p);
    eqf(p.intensity, i, "intensity");
    let p = PointXYZL::new(f(x), f(y), f(z), l);
    xyz!(p);
    check(p.label == l, "label");
    let p = PointXYZRGB::new(f(x), f(y), f(z), r, g, b);
    xyz!(p);
    color!(p);
    let p = PointXYZRGBA::new(f(x), f(y), f(z), r, g, b, a);
    xyz!(p);
    color!(p);
    check(p.a == a, "alpha");
    let p = PointXYZRGBNormal::new(f(x), f(y), f(z), RGB::new(r, g, b), f(nx), f(ny), f(nz));
    xyz!(p);
    color!(p);
    normal!(p);
    let p = PointXYZINormal::new(f(x), f(y), f(z), f(i), f(nx), f(ny), f(nz));
    xyz!(p);
    eqf(p.intensity, i, "intensity");
    normal!(p);
    let p = PointXYZRGBL::new(f(x), f(y), f(z), r, g, b, l);
    xyz!(p);
    color!(p);
    check(p.label == l, "label");
    let p = PointXYZNormal::new(f(x), f(y), f(z), f(nx), f(ny), f(nz));
    xyz!(p);
    normal!(p);
    // any packed color, also with the unused byte set
    let c = RGB::new_from_packed(u());
    let p = PointXYZRGBNormal::new(f(x), f(y), f(z), c, f(nx), f(ny), f(nz));
    check(p.rgb.raw().to_bits() == c.raw().to_bits(), "color kept");
    check(p.r() == c.r() && p.g() == c.g() && p.b() == c.b(), "channels of the color");
    cover("constructed");
}

/// Everything zero by default, and equality looks at every field.
fn defaults<const N: usize, T: Pt<N> + PartialEq>() {
    let d = T::default();
    check(d.bits() == [0u64; N], "the default is zero in every field");
    // set one field to a value that differs from another one
    let k = nd::choose(N as u64) as usize;
    let mut b = [0u64; N];
    for i in 0..N {
        b[i] = 0x3c;
    }
    let p = T::make(b);
    b[k] = 0x3d;
    let q = T::make(b);
    check(p == p.clone(), "a copy is equal");
    check(p != q, "a difference in any field is seen");
    cover("defaults");
}

macro_rules! predefined {
    ($ty:expr, $f:ident, ($($a:expr),*)) => {
        match $ty {
            0 => $f::<3, PointXYZ>($($a),*),
            1 => $f::<4, PointXYZI>($($a),*),
            2 => $f::<4, PointXYZL>($($a),*),
            3 => $f::<4, PointXYZRGB>($($a),*),
            4 => $f::<5, PointXYZRGBA>($($a),*),
            5 => $f::<7, PointXYZRGBNormal>($($a),*),
            6 => $f::<7, PointXYZINormal>($($a),*),
            7 => $f::<5, PointXYZRGBL>($($a),*),
            _ => $f::<6, PointXYZNormal>($($a),*),
        }
    };
}

entries! {
    h_layout(ty, n) { predefined!(ty, layout, (n)) }
    h_constructors() { constructors() }
    h_defaults(ty) { predefined!(ty, defaults, ()) }
}
