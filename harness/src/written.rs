//! What the library writes (C03): the message describes its own bytes.
use crate::nd::{self, check, cover, emit};
use crate::pts::*;
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::Endian;

/// Checks a written message against the values of the points, by the ROS definition alone.
pub fn described<const N: usize, T: Pt<N>>(msg: &PointCloud2Msg, vals: &[[u64; N]]) {
    let n = vals.len();
    check(msg.dimensions.width as usize == n, "width is the number of points");
    check(msg.dimensions.height == if n == 0 { 0 } else { 1 }, "height is 1, 0 for the empty cloud");
    let step = msg.point_step as usize;
    check(msg.row_step as usize == n * step, "row_step is the size of the row");
    check(msg.data.len() == n * step, "data is exactly the points");
    check(msg.fields.len() == N, "one field per field of the point");
    if msg.fields.len() != N || msg.data.len() != n * step {
        return;
    }
    let mut ok = true;
    for i in 0..N {
        let f = &msg.fields[i];
        check(f.name == T::F[i].name, "names in order");
        check(f.datatype == T::F[i].code, "ROS datatype code");
        check(f.count == 1, "count 1");
        let (o, s) = (f.offset as usize, T::F[i].size());
        check(o + s <= step, "field inside the point");
        ok &= o + s <= step;
        for k in 0..i {
            let (p, t) = (msg.fields[k].offset as usize, T::F[k].size());
            check(o + s <= p || p + t <= o, "fields do not overlap");
        }
        emit(f.offset as u64);
    }
    if !ok {
        return;
    }
    let mut all = nd::All::of(n);
    for (p, v) in vals.iter().enumerate() {
        for i in 0..N {
            let s = T::F[i].size();
            let base = p * step + msg.fields[i].offset as usize;
            let mut x = 0u64;
            for j in 0..s {
                let pos = if msg.endian == Endian::Big { s - 1 - j } else { j };
                x |= (msg.data[base + j] as u64) << (8 * pos);
            }
            all.check(x == v[i], "decoding the raw bytes gives the written value");
        }
    }
    all.done("decoding the raw bytes gives every written value");
    cover("described");
}

pub fn written<const N: usize, T: Pt<N>>(mode: u64, n: u64) {
    let mut v: Vec<T> = Vec::new();
    let mut b = Vec::new();
    for _ in 0..n {
        let p = T::nd();
        b.push(p.bits());
        v.push(p);
    }
    let r = match mode {
        0 => PointCloud2Msg::try_from_iter(v),
        1 => PointCloud2Msg::try_from_vec(v),
        // other iterables: a lazy iterator without an exact size, an array of chunks
        2 => PointCloud2Msg::try_from_iter(v.into_iter().filter(|_| true)),
        _ => {
            // spare capacity in the vector must not matter
            let mut w = Vec::with_capacity(v.len() + 3);
            w.extend(v);
            PointCloud2Msg::try_from_vec(w)
        }
    };
    match r {
        Ok(m) => described::<N, T>(&m, &b),
        Err(_) => check(false, "writing succeeds"),
    }
}

entries! {
    h_written(ty, mode, n) { by_type!(ty, written, (mode, n)) }
    h_written_upto(ty, mode, lo, hi) {
        let n = lo + nd::choose(hi - lo);
        by_type!(ty, written, (mode, n))
    }
}
