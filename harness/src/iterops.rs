//! The iterator contract (C10) and splitting (C11).
use crate::msgs::*;
use crate::nd::{self, check, cover, emit};
use crate::pts::*;
use ros_pointcloud2::iterator::PointCloudIterator;
use ros_pointcloud2::points::PointXYZ;
use ros_pointcloud2::prelude::*;

/// Well-formed message for T, n points. shape: bits 0, 1 unused bytes in front of and behind the
/// fields; bit 2 big endian; bit 3 two rows (if n is even); bit 4 one point per row.
pub fn plain<const N: usize, T: Pt<N>>(n: u64, shape: u64) -> M {
    let gap = (shape & 3) as u32;
    let big = shape & 4 == 4;
    let rows = if shape & 16 == 16 { n } else if shape & 8 == 8 && n % 2 == 0 { 2 } else { 1 };
    let mut m = M {
        names: vec![],
        off: vec![],
        dt: vec![],
        cnt: vec![],
        big,
        width: if rows == 0 { 1 } else { n / rows } as u32,
        height: rows as u32,
        step: 0,
        row_step: 0,
        data: vec![],
        dense: true,
    };
    let mut o = gap;
    for f in T::F.iter() {
        m.names.push(f.name);
        m.off.push(o);
        m.dt.push(f.code);
        m.cnt.push(1);
        o += f.size() as u32 + gap;
    }
    m.step = o;
    m.row_step = o * m.width;
    m.data = nd::bytes(o as usize * n as usize);
    m
}

pub fn expect<const N: usize, T: Pt<N>>(m: &M, p: usize, got: &T) {
    let b = got.bits();
    for i in 0..N {
        check(b[i] == m.value(i, p, T::F[i].code), "the point at this position");
        emit(b[i]);
    }
}
pub fn expect_opt<const N: usize, T: Pt<N>>(m: &M, p: Option<usize>, got: &Option<T>) {
    match (p, got) {
        (None, None) => {}
        (Some(p), Some(t)) => expect(m, p, t),
        (None, Some(_)) => check(false, "None when no point is left"),
        (Some(_), None) => check(false, "a point while points are left"),
    }
}

fn sizes<const N: usize, T: Pt<N>>(it: &PointCloudIterator<N, T>, left: usize) {
    let (lo, hi) = Iterator::size_hint(it);
    check(lo == left && hi == Some(left), "size_hint is exact");
    #[cfg(feature = "rayon")]
    {
        check(ExactSizeIterator::len(it) == left, "len is exact");
        check(rayon::iter::IndexedParallelIterator::len(it) == left, "the parallel length is exact");
        check(rayon::iter::ParallelIterator::opt_len(it) == Some(left), "the parallel length is known");
    }
}

fn open<const N: usize, T: Pt<N>>(m: &M) -> Option<PointCloudIterator<N, T>> {
    match PointCloudIterator::<N, T>::try_from(m.msg()) {
        Ok(it) => Some(it),
        Err(_) => {
            check(false, "a well-formed message is readable");
            None
        }
    }
}

#[cfg(feature = "rayon")]
const DIRECTIONS: u64 = 2;
#[cfg(not(feature = "rayon"))]
const DIRECTIONS: u64 = 1;

fn back<const N: usize, T: Pt<N>>(it: &mut PointCloudIterator<N, T>) -> Option<T> {
    #[cfg(feature = "rayon")]
    {
        DoubleEndedIterator::next_back(it)
    }
    #[cfg(not(feature = "rayon"))]
    {
        Iterator::next(it)
    }
}

/// k calls out of next / next_back (mode bit 0: also nth, nth_back), then a final consuming call.
fn ops<const N: usize, T: Pt<N>>(n: u64, k: u64, mode: u64, gap: u64) {
    let m = plain::<N, T>(n, gap | (mode & 2) << 1);
    let mut it = match open::<N, T>(&m) {
        Some(x) => x,
        None => return,
    };
    let (mut lo, mut hi) = (0usize, n as usize);
    let kinds = if mode & 1 == 1 { 2 } else { 1 } * DIRECTIONS;
    for _ in 0..k {
        sizes(&it, hi - lo);
        let op = nd::choose(kinds);
        let back_ = DIRECTIONS == 2 && op & 1 == 1;
        if op < DIRECTIONS {
            if !back_ {
                let e = if lo < hi { Some(lo) } else { None };
                lo += e.is_some() as usize;
                expect_opt(&m, e, &Iterator::next(&mut it));
            } else {
                let e = if lo < hi { Some(hi - 1) } else { None };
                hi -= e.is_some() as usize;
                expect_opt(&m, e, &back(&mut it));
            }
        } else {
            let c = [0usize, 1, n as usize, usize::MAX];
            let j = c[nd::choose(4) as usize];
            if !back_ {
                let e = if j < hi - lo { Some(lo + j) } else { None };
                lo = e.map(|x| x + 1).unwrap_or(hi);
                expect_opt(&m, e, &Iterator::nth(&mut it, j));
            } else {
                let e = if j < hi - lo { Some(hi - 1 - j) } else { None };
                hi = e.unwrap_or(lo);
                #[cfg(feature = "rayon")]
                expect_opt(&m, e, &DoubleEndedIterator::nth_back(&mut it, j));
            }
        }
        if lo == hi {
            cover("exhausted");
        }
    }
    sizes(&it, hi - lo);
    finish(&m, it, lo, hi, nd::choose(FINISHES));
    cover("operated");
}

const FINISHES: u64 = if DIRECTIONS == 2 { 8 } else { 5 };
fn finish<const N: usize, T: Pt<N>>(m: &M, it: PointCloudIterator<N, T>, lo: usize, hi: usize, how: u64) {
    match how {
        0 => {
            let v: Vec<T> = Iterator::collect(it);
            check(v.len() == hi - lo, "collect keeps the number");
            for (i, p) in v.iter().enumerate().take(hi - lo) {
                expect(m, lo + i, p);
            }
        }
        1 => check(Iterator::count(it) == hi - lo, "count"),
        2 => {
            let e = if lo < hi { Some(hi - 1) } else { None };
            expect_opt(m, e, &Iterator::last(it));
        }
        3 => {
            let n = Iterator::fold(it, lo, |p, t| {
                if p < hi {
                    expect(m, p, &t);
                }
                p + 1
            });
            check(n == hi, "fold sees every point");
        }
        4 => {
            // by hand, and None for good
            let mut it = it;
            let mut p = lo;
            while let Some(t) = Iterator::next(&mut it) {
                check(p < hi, "not too many");
                if p >= hi {
                    return;
                }
                expect(m, p, &t);
                p += 1;
            }
            check(p == hi, "every point");
            for _ in 0..2 {
                check(Iterator::next(&mut it).is_none(), "None forever");
                check(back(&mut it).is_none(), "None forever from behind");
                sizes(&it, 0);
            }
        }
        #[cfg(feature = "rayon")]
        5 => {
            let v: Vec<T> = Iterator::collect(Iterator::rev(it));
            check(v.len() == hi - lo, "rev keeps the number");
            for (i, p) in v.iter().enumerate().take(hi - lo) {
                expect(m, hi - 1 - i, p);
            }
        }
        #[cfg(feature = "rayon")]
        6 => {
            let n = DoubleEndedIterator::rfold(it, hi, |p, t| {
                if p > lo {
                    expect(m, p - 1, &t);
                }
                p.wrapping_sub(1)
            });
            check(n == lo, "rfold sees every point");
        }
        #[cfg(feature = "rayon")]
        _ => {
            let mut it = it;
            let mut p = hi;
            while let Some(t) = back(&mut it) {
                check(p > lo, "not too many");
                if p <= lo {
                    return;
                }
                p -= 1;
                expect(m, p, &t);
            }
            check(p == lo, "every point");
            for _ in 0..2 {
                check(back(&mut it).is_none(), "None forever");
                check(Iterator::next(&mut it).is_none(), "None forever from the front");
                sizes(&it, 0);
            }
        }
        #[cfg(not(feature = "rayon"))]
        _ => {}
    }
}

/// The iterator returned by try_into_iter (known only as `impl Iterator`).
fn opaque<const N: usize, T: Pt<N>>(n: u64, k: u64, gap: u64) {
    let m = plain::<N, T>(n, gap);
    let mut it = match PointCloud2Msg::try_into_iter::<N, T>(m.msg()) {
        Ok(it) => it,
        Err(_) => {
            check(false, "a well-formed message is readable");
            return;
        }
    };
    let mut lo = 0usize;
    let hi = n as usize;
    for _ in 0..k {
        check(it.size_hint() == (hi - lo, Some(hi - lo)), "size_hint is exact");
        match nd::choose(3) {
            0 => {
                let e = if lo < hi { Some(lo) } else { None };
                lo += e.is_some() as usize;
                expect_opt(&m, e, &it.next());
            }
            1 => {
                let j = nd::choose(3) as usize;
                let e = if j < hi - lo { Some(lo + j) } else { None };
                lo = e.map(|x| x + 1).unwrap_or(hi);
                expect_opt(&m, e, &it.nth(j));
            }
            _ => {
                let j = nd::choose(3) as usize;
                let t: Vec<T> = it.by_ref().take(j).collect();
                check(t.len() == j.min(hi - lo), "take");
                for p in t.iter() {
                    if lo < hi {
                        expect(&m, lo, p);
                        lo += 1;
                    }
                }
            }
        }
    }
    check(it.size_hint() == (hi - lo, Some(hi - lo)), "size_hint is exact at the end");
    match nd::choose(4) {
        0 => check(it.count() == hi - lo, "count"),
        1 => expect_opt(&m, if lo < hi { Some(hi - 1) } else { None }, &it.last()),
        2 => {
            let v: Vec<T> = it.skip(1).step_by(2).collect();
            let mut p = lo + 1;
            for t in v.iter() {
                check(p < hi, "skip and step_by stay inside");
                if p < hi {
                    expect(&m, p, t);
                }
                p += 2;
            }
            check(p >= hi, "skip and step_by reach the end");
        }
        _ => {
            let v: Vec<T> = it.collect();
            check(v.len() == hi - lo, "collect keeps the number");
            for (i, p) in v.iter().enumerate().take(hi - lo) {
                expect(&m, lo + i, p);
            }
        }
    }
    cover("operated");
}

/// Consume from both ends, split at an arbitrary index, split a part again, drain the parts.
fn split<const N: usize, T: Pt<N>>(n: u64, again: u64, gap: u64) {
    let m = plain::<N, T>(n, gap);
    let mut it = match open::<N, T>(&m) {
        Some(x) => x,
        None => return,
    };
    let (mut lo, mut hi) = (0usize, n as usize);
    let f = nd::choose(n + 1);
    for _ in 0..f {
        let _ = Iterator::next(&mut it);
        lo += 1;
    }
    if DIRECTIONS == 2 {
        let b = nd::choose(n - f + 1);
        for _ in 0..b {
            let _ = back(&mut it);
            hi -= 1;
        }
    }
    let mut parts = vec![(it, lo, hi)];
    for round in 0..=again {
        let w = if parts.len() > 1 { nd::choose(parts.len() as u64) as usize } else { 0 };
        let (mut it, mut lo, mut hi) = parts.remove(w);
        if round > 0 {
            // move the cursors of the part first
            match nd::choose(3) {
                1 => {
                    let e = if lo < hi { Some(lo) } else { None };
                    lo += e.is_some() as usize;
                    expect_opt(&m, e, &Iterator::next(&mut it));
                }
                2 if DIRECTIONS == 2 => {
                    let e = if lo < hi { Some(hi - 1) } else { None };
                    hi -= e.is_some() as usize;
                    expect_opt(&m, e, &back(&mut it));
                }
                _ => {}
            }
        }
        let idx = nd::u64_() as usize;
        if idx > hi - lo {
            nd::allow_panic(true);
            cover("index beyond the remaining points");
            let _ = it.split_at(idx);
            check(false, "an index beyond the remaining points panics");
            return;
        }
        let (l, r) = it.split_at(idx);
        sizes(&l, idx);
        sizes(&r, hi - lo - idx);
        // the number of points in a part decides how often it can be asked
        let idx = nd::choose_value(idx, hi - lo);
        parts.insert(w, (r, lo + idx, hi));
        parts.insert(w, (l, lo, lo + idx));
    }
    let how = nd::choose(FINISHES);
    for (it, lo, hi) in parts {
        finish(&m, it, lo, hi, how);
    }
    cover("split");
}

/// All points between lo and hi, from the end the bits of `pattern` say (0x1abc: 0xabc, period 12).
fn drain<const N: usize, T: Pt<N>>(m: &M, mut it: PointCloudIterator<N, T>, mut lo: usize, mut hi: usize, pattern: u64) {
    let period = 63 - pattern.leading_zeros() as u64;
    let mut k = 0;
    while lo < hi {
        sizes(&it, hi - lo);
        if DIRECTIONS == 2 && pattern >> (k % period) & 1 == 1 {
            hi -= 1;
            expect_opt(m, Some(hi), &back(&mut it));
        } else {
            lo += 1;
            expect_opt(m, Some(lo - 1), &Iterator::next(&mut it));
        }
        k += 1;
    }
    for i in 0..4 {
        sizes(&it, 0);
        let e = if i % 2 == 0 { Iterator::next(&mut it) } else { back(&mut it) };
        check(e.is_none(), "None when no point is left");
    }
}

/// A whole cloud of many points, one pattern of calls. how 0: on its own; 1: skip some with nth first; 2: a final collect after some
fn walk<const N: usize, T: Pt<N>>(n: u64, pattern: u64, shape: u64, how: u64) {
    let m = plain::<N, T>(n, shape);
    let mut it = match open::<N, T>(&m) {
        Some(x) => x,
        None => return,
    };
    let n = n as usize;
    let mut lo = 0;
    if how > 0 {
        let j = [0, 1, n / 2, n.saturating_sub(2), n.saturating_sub(1), n][nd::choose(6) as usize];
        let e = if j < n { Some(j) } else { None };
        lo = (j + 1).min(n);
        expect_opt(&m, e, &Iterator::nth(&mut it, j));
        sizes(&it, n - lo);
    }
    if how == 2 {
        finish(&m, it, lo, n, nd::choose(FINISHES));
    } else {
        drain(&m, it, lo, n, pattern);
    }
    cover("walked");
}

/// Splits of many points, at positions around 0, the middle, the end and powers of two; then splits of a part.
fn split_many<const N: usize, T: Pt<N>>(n: u64, pattern: u64, shape: u64) {
    let m = plain::<N, T>(n, shape);
    let mut it = match open::<N, T>(&m) {
        Some(x) => x,
        None => return,
    };
    let n = n as usize;
    let (mut lo, mut hi) = (0, n);
    match nd::choose(3) {
        0 => {}
        1 => {
            let _ = Iterator::next(&mut it);
            lo = 1;
        }
        _ => {
            let _ = Iterator::nth(&mut it, n / 3);
            lo = n / 3 + 1;
            if DIRECTIONS == 2 {
                let _ = back(&mut it);
                hi -= 1;
            }
        }
    }
    let left = hi - lo;
    let at = [0, 1, 2, 7, 8, 31, 32, 63, 64, 127, 128, 255, 256, left / 2, left / 2 + 1, left.saturating_sub(1), left];
    let i = at[nd::choose(at.len() as u64) as usize];
    nd::assume(i <= left);
    let (l, r) = it.split_at(i);
    sizes(&l, i);
    sizes(&r, left - i);
    let (a, b) = (lo + i, hi);
    let j = (left - i) / 2;
    let (rl, rr) = r.split_at(j);
    drain(&m, l, lo, a, pattern);
    drain(&m, rr, a + j, b, pattern);
    drain(&m, rl, a, a + j, pattern);
    cover("split");
}

entries! {
    h_walk(n, pattern, shape, how) { walk::<2, M2>(n, pattern, shape, how) }
    h_walk_xyz(n, pattern, shape, how) { walk::<3, PointXYZ>(n, pattern, shape, how) }
    h_many_split(n, pattern, shape) { split_many::<2, M2>(n, pattern, shape) }
    h_many_split_xyz(n, pattern, shape) { split_many::<3, PointXYZ>(n, pattern, shape) }
    h_ops(n, k, mode, gap) { ops::<2, M2>(n, k, mode, gap) }
    h_ops_xyz(n, k, mode, gap) { ops::<3, PointXYZ>(n, k, mode, gap) }
    h_opaque(n, k, gap) { opaque::<2, M2>(n, k, gap) }
    h_split(n, again, gap) { split::<2, M2>(n, again, gap) }
    h_split_xyz(n, again, gap) { split::<3, PointXYZ>(n, again, gap) }
}
