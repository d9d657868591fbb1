//! Field names with arbitrary characters (C04, C06, C09): a field is the requested one if and only
//! if its name is, byte for byte.
use crate::msgs::*;
use crate::nd::{self, assume, check, cover, emit};
use crate::pts::*;
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::*;

/// An arbitrary name of n bytes: ASCII, or (kind 1) ending in an arbitrary two-byte character.
fn name(n: usize, kind: u64) -> &'static str {
    let b = nd::bytes(n);
    let mut ok = true;
    let wide = if kind == 1 && n >= 2 { n - 2 } else { n };
    for i in 0..wide {
        ok &= b[i] < 0x80;
    }
    if wide < n {
        ok &= (b[wide] >= 0xC2) & (b[wide] <= 0xDF) & (b[wide + 1] >= 0x80) & (b[wide + 1] <= 0xBF);
    }
    assume(ok);
    Box::leak(unsafe { String::from_utf8_unchecked(b) }.into_boxed_str())
}

fn message<const N: usize, T: Pt<N>>(w: u32) -> M {
    let mem = T::mem();
    let mut m = M {
        names: vec![],
        off: vec![],
        dt: vec![],
        cnt: vec![],
        big: false,
        width: w,
        height: 1,
        step: core::mem::size_of::<T>() as u32,
        row_step: core::mem::size_of::<T>() as u32 * w,
        data: vec![],
        dense: true,
    };
    for k in 0..N {
        m.names.push(T::F[k].name);
        m.off.push(mem[k] as u32);
        m.dt.push(T::F[k].code);
        m.cnt.push(1);
    }
    m
}

/// what: 0 agreement of the two ways to read, 1 values, 2 errors
fn judge<const N: usize, T: Pt<N>>(m: &M, what: u64) {
    let mut missing: Vec<&str> = vec![];
    let mut unique = true;
    let mut idx = [0usize; N];
    for k in 0..N {
        let at: Vec<usize> = (0..m.names.len()).filter(|i| m.names[*i] == T::F[k].name).collect();
        match at.len() {
            0 => missing.push(T::F[k].name),
            1 => idx[k] = at[0],
            _ => unique = false,
        }
    }
    let types = (0..N).all(|k| missing.contains(&T::F[k].name) || m.dt[idx[k]] == T::F[k].code);
    let a = PointCloud2Msg::try_into_iter::<N, T>(m.msg()).map(|i| i.collect::<Vec<T>>());
    let b = PointCloud2Msg::try_into_vec::<N, T>(m.msg());
    if missing.is_empty() {
        cover("all there");
    } else {
        cover("missing");
    }
    if what == 0 {
        match (&a, &b) {
            (Ok(v), Ok(w)) => {
                check(v.len() == w.len(), "same number of points");
                for i in 0..w.len().min(v.len()) {
                    let (x, y) = (w[i].bits(), v[i].bits());
                    for k in 0..N {
                        check(x[k] == y[k], "same field values");
                        emit(y[k]);
                    }
                }
            }
            (Err(_), Err(_)) => {}
            (Ok(_), Err(_)) => check(false, "vec succeeds where the iterator does"),
            (Err(_), Ok(_)) => check(false, "vec fails where the iterator does"),
        }
        return;
    }
    for r in [a, b] {
        match r {
            Ok(v) => {
                if what == 1 && missing.is_empty() && unique && types {
                    crate::read::compare::<N, T>(m, &idx, m.width as usize, &v);
                }
                if what == 2 {
                    check(missing.is_empty(), "a message without a requested field is rejected");
                }
            }
            Err(e) => {
                check(!(missing.is_empty() && unique && types), "a message with the requested fields is accepted");
                if what == 2 && !missing.is_empty() {
                    match e {
                        MsgConversionError::FieldsNotFound(names) => {
                            check(names.len() == missing.len(), "exactly the missing names are reported");
                            for (a, b) in names.iter().zip(missing.iter()) {
                                check(a == b, "missing names are reported in order");
                            }
                        }
                        _ => check(false, "missing names are reported as FieldsNotFound"),
                    }
                }
            }
        }
    }
}

/// One field of the message with an arbitrary name of the requested length plus `dl` - 2:
/// in place of a requested field (pos 0), in front (1) or behind (2).
fn one<const N: usize, T: Pt<N>>(pos: u64, dl: u64, what: u64) {
    let mut m = message::<N, T>(2);
    let k = nd::choose(N as u64) as usize;
    let l = (T::F[k].name.len() as u64 + dl % 8).saturating_sub(2) as usize;
    let s = name(l, dl / 8);
    match pos {
        0 => m.names[k] = s,
        _ => {
            let (at, o) = if pos == 1 { (0, m.off[k]) } else { (N, m.off[k]) };
            m.names.insert(at, s);
            m.off.insert(at, o);
            m.dt.insert(at, T::F[k].code);
            m.cnt.insert(at, 1);
        }
    }
    m.data = nd::bytes(m.step as usize * m.width as usize);
    judge::<N, T>(&m, what);
    cover("named");
}

/// Every name arbitrary: lens are decimal digits, least significant first; the layout is that of
/// the first fields of T, extra fields lie at offset 0.
fn all<const N: usize, T: Pt<N>>(lens: u64, what: u64) {
    let mut m = message::<N, T>(1);
    let mut l = lens;
    let mut k = 0;
    m.names.clear();
    while l > 0 {
        m.names.push(name((l % 10) as usize - 1, 0));
        if k >= N {
            m.off.push(0);
            m.dt.push(T::F[k % N].code);
            m.cnt.push(1);
        }
        l /= 10;
        k += 1;
    }
    m.off.truncate(k);
    m.dt.truncate(k);
    m.cnt.truncate(k);
    m.data = nd::bytes(m.step as usize);
    judge::<N, T>(&m, what);
    cover("named");
}

/// A message with `extra` unrelated fields of every kind, the requested ones at chosen positions
/// among them, in any order (N <= 3); with `lack` one of them may be missing.
fn many<const N: usize, T: Pt<N>>(extra: u64, what: u64, lack: u64) {
    let mut m = message::<N, T>(2);
    let own = (m.names.clone(), m.off.clone(), m.dt.clone());
    m.names.clear();
    m.off.clear();
    m.dt.clear();
    m.cnt.clear();
    for i in 0..extra {
        let s: &'static str = Box::leak(format!("f{i}").into_boxed_str());
        m.names.push(s);
        m.off.push((i * 7 % 70_000) as u32);
        m.dt.push((i % 11) as u8);
        m.cnt.push((i % 3) as u32);
    }
    let at: Vec<usize> = [0u64, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 300, extra / 2, extra]
        .into_iter()
        .filter(|p| *p <= extra && (extra < 40 || *p == 0 || *p > extra / 4))
        .map(|p| p as usize)
        .collect();
    let gone = if lack == 1 { nd::choose(N as u64 + 1) as usize } else { N };
    for k in 0..N {
        if k == gone {
            continue;
        }
        let p = at[nd::choose(at.len() as u64) as usize];
        m.names.insert(p, own.0[k]);
        m.off.insert(p, own.1[k]);
        m.dt.insert(p, own.2[k]);
        m.cnt.insert(p, 1);
    }
    m.big = extra & 1 == 1;
    m.data = nd::bytes(m.step as usize * 2);
    judge::<N, T>(&m, what);
    cover("named");
}

entries! {
    h_many(ty, extra, what, lack) {
        match ty {
            0 => many::<2, M2>(extra, what, lack),
            1 => many::<2, MD>(extra, what, lack),
            2 => many::<1, M1>(extra, what, lack),
            _ => many::<3, PointXYZ>(extra, what, lack),
        }
    }
    h_names_one(ty, pos, dl, what) { by_type!(ty, one, (pos, dl, what)) }
    h_names_all(ty, lens, what) {
        match ty {
            0 => all::<2, M2>(lens, what),
            1 => all::<3, M3>(lens, what),
            2 => all::<3, PointXYZ>(lens, what),
            3 => all::<1, M1>(lens, what),
            _ => all::<2, MD>(lens, what),
        }
    }
}
