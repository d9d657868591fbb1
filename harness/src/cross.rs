//! Clouds written as one point type and read as another one (C25).
use crate::nd::{self, check, cover};
use crate::pts::*;
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::*;
use crate::uniform::{UDef, UName, UNamePart};
use ros_pointcloud2::LayoutField as LF;

struct Written {
    msg: Option<PointCloud2Msg>,
    fields: &'static [Fd],
    bits: Vec<Vec<u64>>,
}

/// what bit 0: from a vec
fn write<const N: usize, T: Pt<N>>(what: u64, n: u64) -> Written {
    let mut v = vec![];
    let mut bits = vec![];
    for _ in 0..n {
        let p = T::nd();
        bits.push(p.bits().to_vec());
        v.push(p);
    }
    let msg = if what & 1 == 0 { PointCloud2Msg::try_from_iter(v) } else { PointCloud2Msg::try_from_vec(v) };
    Written { msg: msg.ok(), fields: &T::F, bits }
}

enum Outcome {
    Points(Vec<Vec<u64>>),
    Missing(Vec<String>),
    Other,
}
struct Read {
    fields: &'static [Fd],
    got: Outcome,
}

fn flat<const N: usize, T: Pt<N>>(v: &[T]) -> Outcome {
    Outcome::Points(v.iter().map(|p| p.bits().to_vec()).collect())
}

/// what bit 1: into a vec
fn read<const N: usize, T: Pt<N>>(what: u64, m: PointCloud2Msg) -> Read {
    let r = if what & 2 == 0 {
        m.try_into_iter::<N, T>().map(|it| it.collect::<Vec<T>>())
    } else {
        m.try_into_vec::<N, T>()
    };
    let got = match r {
        Ok(v) => flat::<N, T>(&v),
        Err(MsgConversionError::FieldsNotFound(v)) => Outcome::Missing(v.into_iter().map(|n| n.to_string()).collect()),
        Err(_) => Outcome::Other,
    };
    Read { fields: &T::F, got }
}

macro_rules! by_type {
    ($ty:expr, $f:ident, ($($a:expr),*)) => {
        match $ty {
            0 => $f::<3, PointXYZ>($($a),*),
            1 => $f::<4, PointXYZI>($($a),*),
            2 => $f::<4, PointXYZL>($($a),*),
            3 => $f::<4, PointXYZRGB>($($a),*),
            4 => $f::<5, PointXYZRGBA>($($a),*),
            5 => $f::<7, PointXYZRGBNormal>($($a),*),
            6 => $f::<7, PointXYZINormal>($($a),*),
            7 => $f::<5, PointXYZRGBL>($($a),*),
            8 => $f::<6, PointXYZNormal>($($a),*),
            9 => $f::<8, MAll>($($a),*),
            10 => $f::<2, M2>($($a),*),
            11 => $f::<1, M1>($($a),*),
            12 => $f::<3, M3>($($a),*),
            13 => $f::<2, MD>($($a),*),
            14 => $f::<2, MLead>($($a),*),
            15 => $f::<5, DC>($($a),*),
            16 => $f::<4, DR>($($a),*),
            17 => $f::<2, MP>($($a),*),
            18 => $f::<1, MQ>($($a),*),
            19 => $f::<2, MRev>($($a),*),
            20 => $f::<3, XYZRev>($($a),*),
            21 => $f::<1, OnlyZ>($($a),*),
            22 => $f::<2, Rgbx>($($a),*),
            23 => $f::<3, AllPart>($($a),*),
            24 => $f::<3, Suffix>($($a),*),
            25 => $f::<3, Prefix>($($a),*),
            26 => $f::<3, Upper>($($a),*),
            27 => $f::<2, Short>($($a),*),
            28 => $f::<3, UDef>($($a),*),
            29 => $f::<9, UName>($($a),*),
            30 => $f::<4, UNamePart>($($a),*),
            _ => panic!("no such type"),
        }
    };
}

fn cross(a: u64, b: u64, what: u64, n: u64) {
    let w = by_type!(a, write, (what, n));
    let m = match w.msg {
        Some(m) => m,
        None => return check(false, "writing succeeds"),
    };
    let r = by_type!(b, read, (what, m));
    let src: Vec<Option<usize>> = r.fields.iter().map(|f| w.fields.iter().position(|g| g.name == f.name)).collect();
    let same_types = src.iter().zip(r.fields.iter()).all(|(s, f)| s.is_none_or(|s| w.fields[s].code == f.code));
    let missing: Vec<&str> = src.iter().zip(r.fields.iter()).filter(|(s, _)| s.is_none()).map(|(_, f)| f.name).collect();
    match r.got {
        Outcome::Points(p) => {
            check(missing.is_empty(), "absent fields are an error");
            check(p.len() as u64 == n, "number of points kept");
            if same_types {
                for (x, y) in p.iter().zip(w.bits.iter()) {
                    for (i, s) in src.iter().enumerate() {
                        if let Some(s) = s {
                            check(x[i] == y[*s], "field value kept bit for bit");
                            nd::emit(x[i]);
                        }
                    }
                }
            }
            cover("projected");
        }
        Outcome::Missing(v) => {
            check(!missing.is_empty(), "all fields are there");
            check(v.len() == missing.len() && v.iter().zip(missing.iter()).all(|(a, b)| a == b), "exactly the absent fields are named");
            cover("missing");
        }
        Outcome::Other => check(!same_types, "readable"),
    }
}

// parts of the other types
manual!(MP, 2, [q: u8 = "q", p: u16 = "p"], [LF::new("q", "u8", 1), LF::padding(1), LF::new("p", "u16", 2)], #[repr(C)]);
manual!(MQ, 1, [q: u8 = "q"], [LF::new("q", "u8", 1)], #[repr(C)]);
manual!(MRev, 2, [k: i8 = "k", t: f64 = "t"], [LF::new("k", "i8", 1), LF::padding(7), LF::new("t", "f64", 8)], #[repr(C)]);
manual!(XYZRev, 3, [z: f32 = "z", y: f32 = "y", x: f32 = "x"], [LF::new("z", "f32", 4), LF::new("y", "f32", 4), LF::new("x", "f32", 4)], #[repr(C)]);
manual!(OnlyZ, 1, [z: f32 = "z"], [LF::new("z", "f32", 4)], #[repr(C)]);
manual!(Rgbx, 2, [rgb: f32 = "rgb", x: f32 = "x"], [LF::new("rgb", "f32", 4), LF::new("x", "f32", 4)], #[repr(C)]);
manual!(AllPart, 3, [f: i32 = "f", b: f64 = "b", c: i8 = "c"],
    [LF::new("f", "i32", 4), LF::padding(4), LF::new("b", "f64", 8), LF::new("c", "i8", 1), LF::padding(7)], #[repr(C)]);
// the memory layout of PointXYZ, and names that are nearly its names
macro_rules! like_xyz {
    ($t:ident, $n:expr, [$($f:ident = $name:expr),*], $pad:expr) => {
        manual!($t, $n, [$($f: f32 = $name),*], [$(LF::new($name, "f32", 4)),*, LF::padding($pad)], #[repr(C, align(16))]);
    };
}
like_xyz!(Suffix, 3, [a = "normal_x", b = "normal_y", c = "normal_z"], 4);
like_xyz!(Prefix, 3, [a = "x_", b = "y_", c = "z_"], 4);
like_xyz!(Upper, 3, [a = "X", b = "Y", c = "Z"], 4);
like_xyz!(Short, 2, [a = "x", b = "y"], 8);

entries! {
    h_cross(a, b, what, n) { cross(a, b, what, n) }
    /// every type and every way of writing and reading
    h_cross_all(a, n) {
        let b = nd::choose(31);
        let what = nd::choose(4);
        cross(a, b, what, n)
    }
}
