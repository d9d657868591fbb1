//! nalgebra conversions (C21).
use crate::nd::{self, check, cover, emit};
use crate::pts::*;
use ros_pointcloud2::points::*;

fn nan32(b: u32) -> bool {
    b & 0x7fff_ffff > 0x7f80_0000
}
fn nan64(b: u64) -> bool {
    b & 0x7fff_ffff_ffff_ffff > 0x7ff0_0000_0000_0000
}

/// Independent, integer-only definition of the exact widening of an f32.
fn widened(b: u32) -> u64 {
    let sign = (b as u64 >> 31) << 63;
    let exp = (b >> 23) & 0xff;
    let man = (b & 0x7f_ffff) as u64;
    if exp == 0xff {
        return sign | 0x7ff << 52 | man << 29;
    }
    if exp == 0 {
        if man == 0 {
            return sign;
        }
        // subnormal: man * 2^-149
        let top = 63 - man.leading_zeros() as u64; // 0..=22
        let m = (man << (52 - top)) & ((1 << 52) - 1);
        return sign | (top + 1023 - 149) << 52 | m;
    }
    sign | (exp as u64 + 1023 - 127) << 52 | man << 29
}

/// Independent round-to-nearest-even narrowing of a non-NaN f64.
fn narrowed(b: u64) -> u32 {
    let sign = ((b >> 63) as u32) << 31;
    let exp = (b >> 52 & 0x7ff) as i64;
    let man = b & ((1 << 52) - 1);
    if exp == 0x7ff {
        return sign | 0x7f80_0000;
    }
    if exp == 0 {
        // far below the smallest subnormal f32
        return sign;
    }
    // value = (2^52 + man) * 2^(exp - 1075)
    let full = man | 1 << 52;
    let e = exp - 1023;
    // number of low bits to drop so that the result has 24 bits, or fewer for subnormals
    let drop = if e >= -126 { 29 } else { 29 + (-126 - e) };
    if drop > 53 {
        return sign;
    }
    let q = full >> drop;
    let rest = full & ((1u64 << drop) - 1);
    let half = 1u64 << (drop - 1);
    let q = q + (rest > half || (rest == half && q & 1 == 1)) as u64;
    if e >= -126 {
        // q in 2^23 ..= 2^24
        let r = ((e + 127) as u64) << 23;
        let r = r + (q - (1 << 23));
        if r >= 0xff << 23 {
            return sign | 0x7f80_0000;
        }
        sign | r as u32
    } else {
        sign | q as u32
    }
}

fn same64(x: f64, b: u32, msg: &'static str) {
    let y = x.to_bits();
    check(nan64(y) == nan32(b), msg);
    if !nan32(b) {
        check(y == widened(b), msg);
    }
    emit(if nan32(b) { 1 } else { y });
}
fn same32(x: f32, b: u32, msg: &'static str) {
    check(x.to_bits() == b, msg);
    emit(x.to_bits() as u64);
}

macro_rules! getters {
    ($p:expr, $b:expr) => {{
        let (p, b) = ($p, $b);
        #[allow(deprecated)]
        let a = p.xyz();
        for q in [a, p.xyz_f32()] {
            same32(q.x, b[0], "x");
            same32(q.y, b[1], "y");
            same32(q.z, b[2], "z");
        }
        let q = p.xyz_f64();
        same64(q.x, b[0], "x widened");
        same64(q.y, b[1], "y widened");
        same64(q.z, b[2], "z widened");
        check(p.x.to_bits() == b[0] && p.y.to_bits() == b[1] && p.z.to_bits() == b[2], "the point is unchanged");
    }};
}

fn getters(ty: u64) {
    macro_rules! go {
        ($t:ident) => {{
            let mut p = <$t as Pt<_>>::nd();
            let b = [nd::u32_(), nd::u32_(), nd::u32_()];
            p.x = f32::from_bits(b[0]);
            p.y = f32::from_bits(b[1]);
            p.z = f32::from_bits(b[2]);
            getters!(p, b)
        }};
    }
    match ty {
        0 => go!(PointXYZ),
        1 => go!(PointXYZI),
        2 => go!(PointXYZL),
        3 => go!(PointXYZRGB),
        4 => go!(PointXYZRGBA),
        5 => go!(PointXYZRGBNormal),
        6 => go!(PointXYZINormal),
        7 => go!(PointXYZRGBL),
        _ => go!(PointXYZNormal),
    }
    cover("getters");
}

fn convert() {
    let b = [nd::u32_(), nd::u32_(), nd::u32_()];
    let p = PointXYZ::new(f32::from_bits(b[0]), f32::from_bits(b[1]), f32::from_bits(b[2]));
    let a: nalgebra::Point3<f32> = p.into();
    let c = nalgebra::Point3::<f32>::from(&p);
    for q in [a, c] {
        same32(q.x, b[0], "x");
        same32(q.y, b[1], "y");
        same32(q.z, b[2], "z");
        for r in [PointXYZ::from(q), PointXYZ::from(&q)] {
            same32(r.x, b[0], "x and back");
            same32(r.y, b[1], "y and back");
            same32(r.z, b[2], "z and back");
        }
    }
    let a: nalgebra::Point3<f64> = p.into();
    let c = nalgebra::Point3::<f64>::from(&p);
    for q in [a, c] {
        same64(q.x, b[0], "x widened");
        same64(q.y, b[1], "y widened");
        same64(q.z, b[2], "z widened");
    }
    cover("converted");
}

/// f64 and back is the identity (NaN stays NaN): which coordinate is picked, form of the calls.
fn back(which: u64) {
    let b = nd::u32_();
    let mut c = [0f32, 1.0, -2.5];
    c[which as usize] = f32::from_bits(b);
    let p = PointXYZ::new(c[0], c[1], c[2]);
    let q: nalgebra::Point3<f64> = p.into();
    for r in [PointXYZ::from(q), PointXYZ::from(&q)] {
        let r = [r.x, r.y, r.z];
        for i in 0..3 {
            let e = if i == which as usize { b } else { c[i].to_bits() };
            let g = r[i].to_bits();
            check(nan32(g) == nan32(e) && (nan32(e) || g == e), "to f64 and back");
        }
    }
    cover("back");
}

/// Rounding of every f64.
fn rounds(which: u64) {
    let b = nd::u64_();
    let mut c = [0f64, 1.0, -2.5];
    c[which as usize] = f64::from_bits(b);
    let q = nalgebra::Point3::<f64>::new(c[0], c[1], c[2]);
    for r in [PointXYZ::from(q), PointXYZ::from(&q)] {
        let r = [r.x, r.y, r.z];
        let g = r[which as usize].to_bits();
        check(nan32(g) == nan64(b), "NaN");
        if !nan64(b) {
            check(g == narrowed(b), "rounded to the nearest f32");
        }
        for i in 0..3 {
            if i != which as usize {
                check(r[i] as f64 == c[i], "the other coordinates");
            }
        }
    }
    cover("rounded");
}

entries! {
    h_getters(ty) { getters(ty) }
    h_convert() { convert() }
    h_f64_back(which) { back(which) }
    h_f64_rounds(which) { rounds(which) }
}
