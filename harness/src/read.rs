//! Reading messages: by name, both byte orders, every layout (C04, C05).
use crate::msgs::*;
use crate::nd::{self, assume, check, cover};
use crate::pts::*;
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::*;

pub fn compare<const N: usize, T: Pt<N>>(m: &M, idx: &[usize; N], n: usize, out: &[T]) {
    check(out.len() == n, "one point per position of the cloud");
    let mut all = nd::All::of(n);
    for (p, t) in out.iter().enumerate().take(n) {
        let b = t.bits();
        for i in 0..N {
            all.check(b[i] == m.value(idx[i], p, T::F[i].code), "field equals the bytes stored under its name");
            all.emit(b[i]);
        }
    }
    all.done("every field of every point equals the bytes stored under its name");
}

/// A well-formed message for T with `extra` unrelated fields in a chosen order, arbitrary field
/// offsets inside the point, `step` bytes per point, w*h points, arbitrary data.
fn wellformed<const N: usize, T: Pt<N>>(extra: u64, order: u64, step: u64, w: u32, h: u32, big: bool) -> (M, [usize; N]) {
    let nf = N + extra as usize;
    let perm = permutation(nf, order);
    let mut m = M {
        names: vec![],
        off: vec![],
        dt: vec![],
        cnt: vec![],
        big,
        width: w,
        height: h,
        step: step as u32,
        row_step: nd::u32_(),
        data: vec![],
        dense: nd::bool_(),
    };
    let mut idx = [0usize; N];
    for k in perm {
        if k < N {
            idx[k] = m.names.len();
            m.names.push(T::F[k].name);
            let o = nd::u32_();
            assume(o as u64 + T::F[k].size() as u64 <= step);
            m.off.push(o);
            m.dt.push(T::F[k].code);
            m.cnt.push(1);
        } else {
            m.names.push(["other", ""][k - N]);
            m.off.push(nd::u32_());
            m.dt.push(nd::u8_());
            m.cnt.push(nd::u32_());
        }
    }
    m.data = nd::bytes(step as usize * w as usize * h as usize);
    (m, idx)
}

fn both<const N: usize, T: Pt<N>>(m: &M, idx: &[usize; N], n: usize, which: u64) {
    if which != 1 {
        match PointCloud2Msg::try_into_iter::<N, T>(m.msg()) {
            Ok(it) => {
                let out: Vec<T> = it.collect();
                compare(m, idx, n, &out);
                cover("iterator");
            }
            Err(_) => check(false, "a well-formed message is readable as iterator"),
        }
    }
    if which != 0 {
        match PointCloud2Msg::try_into_vec::<N, T>(m.msg()) {
            Ok(out) => {
                compare::<N, T>(m, idx, n, &out);
                cover("vec");
            }
            Err(_) => check(false, "a well-formed message is readable into a vec"),
        }
    }
}

/// shape = 16*w + h
fn read<const N: usize, T: Pt<N>>(extra: u64, step: u64, shape: u64, endian: u64) {
    let order = nd::choose(fact(N as u64 + extra).min(24 * (extra + 1)));
    let (w, h) = ((shape / 16) as u32, (shape % 16) as u32);
    let big = endian & 1 == 1;
    let (m, idx) = wellformed::<N, T>(extra, order * if N as u64 + extra > 4 { 7919 } else { 1 }, step, w, h, big);
    both::<N, T>(&m, &idx, (w * h) as usize, endian >> 1 & 3);
    cover("read");
}

/// Large point steps: offsets of every byte width, fields placed at chosen positions.
fn wide<const N: usize, T: Pt<N>>(step: u64, n: u64, big: u64) {
    let mut m = M {
        names: vec![],
        off: vec![],
        dt: vec![],
        cnt: vec![],
        big: big & 1 == 1,
        width: n as u32,
        height: 1,
        step: step as u32,
        row_step: (step * n) as u32,
        data: vec![],
        dense: true,
    };
    let mut idx = [0usize; N];
    for k in 0..N {
        idx[k] = k;
        m.names.push(T::F[k].name);
        let s = T::F[k].size() as u64;
        let c: Vec<u64> = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, step - s, (step - s) / 2]
            .into_iter()
            .filter(|o| o + s <= step)
            .collect();
        m.off.push(c[nd::choose(c.len() as u64) as usize] as u32);
        m.dt.push(T::F[k].code);
        m.cnt.push(1);
    }
    m.data = vec![0u8; (step * n) as usize];
    // the bytes of the requested fields are arbitrary, the rest is fixed
    for p in 0..n as usize {
        for k in 0..N {
            for j in 0..T::F[k].size() {
                m.data[p * step as usize + m.off[k] as usize + j] = nd::u8_();
            }
        }
    }
    both::<N, T>(&m, &idx, n as usize, 2);
    cover("read");
}

/// A message the library could have written itself for T (fields in order, packed or with the
/// padding of the struct), in both byte orders and with `slack` extra bytes per point.
pub fn own<const N: usize, T: Pt<N>>(kind: u64, n: u64, endian: u64) {
    let mem = T::mem();
    let mut m = M {
        names: vec![],
        off: vec![],
        dt: vec![],
        cnt: vec![],
        big: endian & 1 == 1,
        width: n as u32,
        height: 1,
        step: 0,
        row_step: 0,
        data: vec![],
        dense: true,
    };
    let mut idx = [0usize; N];
    let mut o = 0usize;
    for k in 0..N {
        idx[k] = k;
        m.names.push(T::F[k].name);
        m.off.push(if kind & 1 == 0 { o } else { mem[k] } as u32);
        o += T::F[k].size();
        m.dt.push(T::F[k].code);
        m.cnt.push(1);
    }
    let end = (0..N).map(|k| m.off[k] as usize + T::F[k].size()).max().unwrap();
    // kind/2: point_step = end of last field | struct size | struct size + 1 | struct size + 4 | size * 2
    let sz = core::mem::size_of::<T>();
    m.step = match kind / 2 {
        0 => end,
        1 => sz,
        2 => sz + 1,
        3 => sz + 4,
        _ => 2 * sz,
    } as u32;
    m.row_step = m.step * n as u32;
    m.data = nd::bytes(m.step as usize * n as usize);
    both::<N, T>(&m, &idx, n as usize, 2);
    cover("read");
}

entries! {
    h_read_m2(extra, step, shape, endian) { read::<2, M2>(extra, step, shape, endian) }
    h_read_m3(extra, step, shape, endian) { read::<3, M3>(extra, step, shape, endian) }
    h_read_md(extra, step, shape, endian) { read::<2, MD>(extra, step, shape, endian) }
    h_read_xyz(extra, step, shape, endian) { read::<3, PointXYZ>(extra, step, shape, endian) }
    h_read_xyzi(extra, step, shape, endian) { read::<4, PointXYZI>(extra, step, shape, endian) }
    h_read_rgba(extra, step, shape, endian) { read::<5, PointXYZRGBA>(extra, step, shape, endian) }
    h_read_dc(extra, step, shape, endian) { read::<5, DC>(extra, step, shape, endian) }
    h_read_dr(extra, step, shape, endian) { read::<4, DR>(extra, step, shape, endian) }
    h_read_mall(extra, step, shape, endian) { read::<8, MAll>(extra, step, shape, endian) }
    h_wide(ty, step, n, big) {
        match ty {
            0 => wide::<2, M2>(step, n, big),
            1 => wide::<2, MD>(step, n, big),
            _ => wide::<3, PointXYZ>(step, n, big),
        }
    }
    h_own(ty, kind, n, endian) { by_type!(ty, own, (kind, n, endian)) }
    /// kind + 16 * byte order; every number of points in lo..hi
    h_own_upto(ty, kind, lo, hi) {
        let n = lo + nd::choose(hi - lo);
        by_type!(ty, own, (kind % 16, n, kind / 16))
    }
}
