use crate::nd::{self, check, cover};
use crate::pts::*;
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::*;

fn same<const N: usize, T: Pt<N>>(orig: &[[u64; N]], out: &[T]) {
    check(out.len() == orig.len(), "number of points kept");
    let mut all = nd::All::of(orig.len());
    for (o, p) in orig.iter().zip(out.iter()) {
        let b = p.bits();
        for i in 0..N {
            all.check(b[i] == o[i], "field value kept bit for bit");
            all.emit(b[i]);
        }
    }
    all.done("every field value of every point kept bit for bit");
}

fn points<const N: usize, T: Pt<N>>(n: u64) -> (Vec<T>, Vec<[u64; N]>) {
    let mut v = Vec::new();
    let mut b = Vec::new();
    for _ in 0..n {
        let p = T::nd();
        b.push(p.bits());
        v.push(p);
    }
    (v, b)
}

/// mode bit 0: write from vec; bit 1: read into vec
pub fn rt<const N: usize, T: Pt<N>>(mode: u64, n: u64) {
    let (v, b) = points::<N, T>(n);
    let msg = if mode & 1 == 0 {
        PointCloud2Msg::try_from_iter(v)
    } else {
        PointCloud2Msg::try_from_vec(v)
    };
    let msg = match msg {
        Ok(m) => m,
        Err(_) => {
            check(false, "writing succeeds");
            return;
        }
    };
    if mode & 2 == 0 {
        match msg.try_into_iter() {
            Ok(it) => {
                let out: Vec<T> = it.collect();
                same(&b, &out)
            }
            Err(_) => check(false, "reading the own message as an iterator succeeds"),
        }
    } else {
        match msg.try_into_vec() {
            Ok(out) => same::<N, T>(&b, &out),
            Err(_) => check(false, "reading the own message into a vec succeeds"),
        }
    }
    cover("round trip");
}


macro_rules! by_type {
    ($ty:expr, $f:ident, ($($a:expr),*)) => {
        match $ty {
            0 => $f::<3, PointXYZ>($($a),*),
            1 => $f::<4, PointXYZI>($($a),*),
            2 => $f::<4, PointXYZL>($($a),*),
            3 => $f::<4, PointXYZRGB>($($a),*),
            4 => $f::<5, PointXYZRGBA>($($a),*),
            5 => $f::<7, PointXYZRGBNormal>($($a),*),
            6 => $f::<7, PointXYZINormal>($($a),*),
            7 => $f::<5, PointXYZRGBL>($($a),*),
            8 => $f::<6, PointXYZNormal>($($a),*),
            9 => $f::<8, MAll>($($a),*),
            10 => $f::<2, M2>($($a),*),
            11 => $f::<1, M1>($($a),*),
            12 => $f::<3, M3>($($a),*),
            13 => $f::<2, MD>($($a),*),
            14 => $f::<2, MLead>($($a),*),
            15 => $f::<5, DC>($($a),*),
            16 => $f::<4, DR>($($a),*),
            _ => panic!("no such type"),
        }
    };
}

entries! {
    /// write and read n points of a type
    h_rt(ty, mode, n) {
        by_type!(ty, rt, (mode, n))
    }
    /// every number of points in lo..hi
    h_rt_upto(ty, mode, lo, hi) {
        let n = lo + nd::choose(hi - lo);
        by_type!(ty, rt, (mode, n))
    }
}
