//! Parallel reading and writing on every schedule (C12, C13).
use crate::iterops::{expect, plain};
use crate::msgs::*;
use crate::nd::{self, check, cover, emit};
use crate::pts::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::*;
use rayon::iter::{IndexedParallelIterator as Ix, ParallelIterator as Pa};

/// bits 0-3: most threads; 4-7: joins whose schedule is chosen (0: all); 8..: exact thread count
fn schedule(threads: u64) {
    let chosen = threads >> 4 & 15;
    unsafe {
        rayon_core::MODEL_MAX_THREADS = threads & 15;
        rayon_core::MODEL_THREADS = threads >> 8;
        rayon_core::MODEL_JOINS = 0;
        rayon_core::MODEL_STEALS = 0;
        rayon_core::MODEL_B_FIRST = 0;
        rayon_core::MODEL_CHOICES_LEFT = if chosen == 0 { u64::MAX } else { chosen };
    }
}
fn scheduled() {
    unsafe {
        if rayon_core::MODEL_JOINS > 0 {
            cover("split between workers");
        }
        if rayon_core::MODEL_STEALS > 0 {
            cover("stolen half");
        }
        if rayon_core::MODEL_B_FIRST > 0 {
            cover("second half first");
        }
    }
}

fn points_are<const N: usize, T: Pt<N>>(m: &M, pos: &[usize], v: &[T]) {
    check(v.len() == pos.len(), "number of points");
    let mut all = nd::All::of(pos.len());
    for (p, t) in pos.iter().zip(v.iter()) {
        let b = t.bits();
        for i in 0..N {
            all.check(b[i] == m.value(i, *p, T::F[i].code), "the point at this position");
            all.emit(b[i]);
        }
    }
    all.done("every point at its position");
}

/// position by content, for orders that are not determined
fn key<const N: usize, T: Pt<N>>(t: &T) -> u64 {
    t.bits()[0]
}

/// The first field of the points of a range is odd, for every range.
fn odd_range<const N: usize, T: Pt<N>>(m: &mut M, n: u64) {
    let a = nd::choose(n + 1);
    let b = a + nd::choose(n + 1 - a);
    for i in 0..n {
        let at = i as usize * m.step as usize + m.off[0] as usize + if m.big { T::F[0].size() - 1 } else { 0 };
        m.data[at] = m.data[at] & !1 | (i >= a && i < b) as u8;
    }
}

/// Operations on what try_into_par_iter returns.
fn opaque<const N: usize, T: Pt<N>>(op: u64, n: u64, threads: u64, gap: u64) {
    schedule(threads);
    let mut m = plain::<N, T>(n, gap & 31);
    if gap & 32 == 32 {
        odd_range::<N, T>(&mut m, n);
    }
    let it = match PointCloud2Msg::try_into_par_iter::<N, T>(m.msg()) {
        Ok(it) => it,
        Err(_) => {
            check(false, "a well-formed message is readable");
            return;
        }
    };
    let n = n as usize;
    let all: Vec<usize> = (0..n).collect();
    check(Pa::opt_len(&it) == Some(n), "the parallel length is known");
    match op {
        0 => {
            let v: Vec<T> = Pa::collect(it);
            points_are(&m, &all, &v);
        }
        1 => check(Pa::count(it) == n, "count"),
        2 => {
            let v: Vec<T> = Pa::collect(Pa::filter(it, |t| key(t) & 1 == 1));
            let pos: Vec<usize> = all.into_iter().filter(|p| m.value(0, *p, T::F[0].code) & 1 == 1).collect();
            points_are(&m, &pos, &v);
        }
        3 => {
            let v: Vec<u64> = Pa::collect(Pa::map(it, |t| key(&t)));
            check(v.len() == n, "map keeps the number");
            for (p, x) in v.iter().enumerate() {
                check(*x == m.value(0, p, T::F[0].code), "map keeps the order");
                emit(*x);
            }
        }
        4 => {
            // associative, not commutative
            let v: Vec<u64> = Pa::reduce(Pa::map(it, |t| vec![key(&t)]), Vec::new, |mut a, b| {
                a.extend(b);
                a
            });
            check(v.len() == n, "reduce sees every point once");
            for (p, x) in v.iter().enumerate().take(n) {
                check(*x == m.value(0, p, T::F[0].code), "reduce keeps the order");
            }
        }
        5 => {
            let v: Option<T> = Pa::find_first(it, |t| key(t) & 1 == 1);
            let p = all.into_iter().find(|p| m.value(0, *p, T::F[0].code) & 1 == 1);
            crate::iterops::expect_opt(&m, p, &v);
        }
        6 => {
            let v: Option<T> = Pa::find_last(it, |t| key(t) & 1 == 1);
            let p = all.into_iter().rev().find(|p| m.value(0, *p, T::F[0].code) & 1 == 1);
            crate::iterops::expect_opt(&m, p, &v);
        }
        7 => {
            let (a, b): (Vec<T>, Vec<T>) = Pa::partition(it, |t| key(t) & 1 == 1);
            points_are(&m, &all.iter().copied().filter(|p| m.value(0, *p, T::F[0].code) & 1 == 1).collect::<Vec<_>>(), &a);
            points_are(&m, &all.iter().copied().filter(|p| m.value(0, *p, T::F[0].code) & 1 == 0).collect::<Vec<_>>(), &b);
        }
        8 => {
            let v: Vec<Vec<u64>> = Pa::collect(Pa::fold(it, Vec::new, |mut v: Vec<u64>, t| {
                v.push(key(&t));
                v
            }));
            let v: Vec<u64> = v.into_iter().flatten().collect();
            check(v.len() == n, "fold sees every point");
            for (p, x) in v.iter().enumerate() {
                check(*x == m.value(0, p, T::F[0].code), "fold keeps the order");
            }
        }
        9 => {
            let s: u64 = Pa::sum(Pa::map(it, |t| key(&t)));
            let mut e = 0u64;
            for p in 0..n {
                e += m.value(0, p, T::F[0].code);
            }
            check(s == e, "sum");
        }
        _ => {
            use std::collections::LinkedList;
            let v: LinkedList<T> = Pa::collect(it);
            points_are(&m, &all, &v.into_iter().collect::<Vec<T>>());
        }
    }
    scheduled();
    cover("parallel read");
}

/// Indexed operations on the iterator type, also partly consumed (`pre` = 4*front + back calls).
fn indexed<const N: usize, T: Pt<N>>(op: u64, n: u64, threads: u64, pre: u64) {
    schedule(threads);
    let mut m = plain::<N, T>(n, pre >> 4 & 31);
    if pre >> 4 & 32 == 32 {
        odd_range::<N, T>(&mut m, n);
    }
    let mut it = match PointCloudIterator::<N, T>::try_from(m.msg()) {
        Ok(it) => it,
        Err(_) => {
            check(false, "a well-formed message is readable");
            return;
        }
    };
    let (mut lo, mut hi) = (0usize, n as usize);
    for _ in 0..(pre >> 2 & 3) {
        lo += Iterator::next(&mut it).is_some() as usize;
    }
    for _ in 0..(pre & 3) {
        hi -= DoubleEndedIterator::next_back(&mut it).is_some() as usize;
    }
    let all: Vec<usize> = (lo..hi).collect();
    let len = hi - lo;
    check(Ix::len(&it) == len, "the parallel length is exact");
    match op {
        0 => {
            let v: Vec<T> = Pa::collect(it);
            points_are(&m, &all, &v);
        }
        1 => {
            let v: Vec<T> = Pa::collect(Ix::rev(it));
            let r: Vec<usize> = all.into_iter().rev().collect();
            points_are(&m, &r, &v);
        }
        2 => {
            let k = nd::choose(len as u64 + 2) as usize;
            let v: Vec<T> = Pa::collect(Ix::skip(it, k));
            points_are(&m, &all[k.min(len)..], &v);
        }
        3 => {
            let k = nd::choose(len as u64 + 2) as usize;
            let v: Vec<T> = Pa::collect(Ix::take(it, k));
            points_are(&m, &all[..k.min(len)], &v);
        }
        4 => {
            let v: Vec<(usize, T)> = Pa::collect(Ix::enumerate(it));
            check(v.len() == len, "enumerate keeps the number");
            for (k, (i, t)) in v.iter().enumerate() {
                check(*i == k, "enumerate counts from zero");
                expect(&m, lo + k, t);
            }
        }
        5 => {
            let it2 = PointCloudIterator::<N, T>::try_from(m.msg());
            if let Ok(it2) = it2 {
                let v: Vec<(T, T)> = Pa::collect(Ix::zip(it, it2));
                check(v.len() == len, "zip keeps the number");
                for (k, (a, b)) in v.iter().enumerate() {
                    expect(&m, lo + k, a);
                    expect(&m, k, b);
                }
            }
        }
        6 => {
            let v: Vec<Vec<T>> = Pa::collect(Ix::chunks(it, 2));
            check(v.len() == (len + 1) / 2, "chunks");
            let w: Vec<T> = v.into_iter().flatten().collect();
            points_are(&m, &all, &w);
        }
        7 => {
            let v: Vec<T> = Pa::collect(Ix::step_by(it, 2));
            let r: Vec<usize> = all.into_iter().step_by(2).collect();
            points_are(&m, &r, &v);
        }
        8 => {
            let v: Vec<T> = Pa::collect(Ix::with_min_len(it, 2));
            points_are(&m, &all, &v);
        }
        9 => {
            let v: Vec<T> = Pa::collect(Ix::with_max_len(it, 1));
            points_are(&m, &all, &v);
        }
        10 => {
            let mut v: Vec<T> = vec![T::default(); 2];
            Ix::collect_into_vec(it, &mut v);
            points_are(&m, &all, &v);
        }
        11 => {
            let p = Ix::position_first(it, |t| key(&t) & 1 == 1);
            let e = all.iter().position(|p| m.value(0, *p, T::F[0].code) & 1 == 1);
            check(p == e, "position_first");
        }
        12 => {
            let v: Vec<T> = Pa::collect(Ix::take(Ix::skip(Ix::rev(it), 1), 2));
            let r: Vec<usize> = all.into_iter().rev().skip(1).take(2).collect();
            points_are(&m, &r, &v);
        }
        _ => {
            let v: Vec<T> = Pa::collect(Pa::filter(it, |t| key(t) & 1 == 0));
            let r: Vec<usize> = all.into_iter().filter(|p| m.value(0, *p, T::F[0].code) & 1 == 0).collect();
            points_are(&m, &r, &v);
        }
    }
    scheduled();
    cover("parallel read");
}

/// Parallel writing: src picks the parallel iterator the points come from.
fn write<const N: usize, T: Pt<N>>(src: u64, n: u64, threads: u64) {
    schedule(threads);
    let mut v: Vec<T> = Vec::new();
    if src < 6 {
        for _ in 0..n {
            v.push(T::nd());
        }
    } else {
        // the points of a range are odd, for every range
        let a = nd::choose(n + 1);
        let b = a + nd::choose(n + 1 - a);
        for i in 0..n {
            let mut x = T::nd().bits();
            x[0] = x[0] & !1 | (i >= a && i < b) as u64;
            v.push(T::make(x));
        }
    }
    // the points that arrive, sequentially
    let keep = |t: &T| key(t) & 1 == 1;
    let w: Vec<T> = match src {
        2 | 6 => v.iter().filter(|t| keep(t)).cloned().collect(),
        7 => v.iter().flat_map(|t| vec![t.clone(); if keep(t) { 3 } else { 1 }]).collect(),
        3 => v.iter().rev().cloned().collect(),
        4 => v.iter().chain(v.iter()).cloned().collect(),
        _ => v.clone(),
    };
    let vals: Vec<[u64; N]> = w.iter().map(|t| t.bits()).collect();
    let r = match src {
        0 => PointCloud2Msg::try_from_par_iter(v.into_par_iter()),
        1 => PointCloud2Msg::try_from_par_iter(Pa::map(v.par_iter(), |t| t.clone())),
        2 | 6 => PointCloud2Msg::try_from_par_iter(Pa::filter(v.into_par_iter(), keep)),
        3 => PointCloud2Msg::try_from_par_iter(Ix::rev(v.into_par_iter())),
        4 => PointCloud2Msg::try_from_par_iter(Pa::chain(v.clone().into_par_iter(), v.into_par_iter())),
        7 => PointCloud2Msg::try_from_par_iter(v.into_par_iter().flat_map(|t| {
            let n = if key(&t) & 1 == 1 { 3 } else { 1 };
            vec![t; n]
        })),
        _ => PointCloud2Msg::try_from_par_iter(v.into_par_iter().flat_map(|t| vec![t])),
    };
    let s = PointCloud2Msg::try_from_vec(w);
    match (r, s) {
        (Ok(a), Ok(b)) => {
            crate::written::described::<N, T>(&a, &vals);
            check(a.dimensions.width == b.dimensions.width && a.dimensions.height == b.dimensions.height, "same dimensions");
            check(a.point_step == b.point_step && a.row_step == b.row_step && a.data.len() == b.data.len(), "same sizes");
            check(a.endian == b.endian && a.dense == b.dense, "same flags");
            check(a.fields.len() == b.fields.len(), "same fields");
            for (x, y) in a.fields.iter().zip(b.fields.iter()) {
                check(x.name == y.name && x.offset == y.offset && x.datatype == y.datatype && x.count == y.count, "same field description");
            }
        }
        _ => check(false, "writing succeeds"),
    }
    scheduled();
    cover("parallel write");
}

entries! {
    h_par(op, n, threads, gap) { opaque::<2, M2>(op, n, threads, gap) }
    h_par_xyz(op, n, threads, gap) { opaque::<4, PointXYZI>(op, n, threads, gap) }
    h_ix(op, n, threads, pre) { indexed::<2, M2>(op, n, threads, pre) }
    h_ix_rgb(op, n, threads, pre) { indexed::<4, PointXYZRGB>(op, n, threads, pre) }
    h_parwrite(ty, src, n, threads) {
        match ty {
            0 => write::<2, M2>(src, n, threads),
            1 => write::<4, PointXYZI>(src, n, threads),
            2 => write::<5, PointXYZRGBA>(src, n, threads),
            3 => write::<4, DR>(src, n, threads),
            _ => write::<5, DC>(src, n, threads),
        }
    }
}
