//! Arbitrary (malformed) messages: memory safety, error classification, vec/iter agreement
//! (C06, C07, C08, C09).
use crate::msgs::*;
use crate::nd::{self, assume, check, cover, emit};
use crate::pts::*;
use ros_pointcloud2::prelude::*;

fn iterate<const N: usize, T: Pt<N>>(m: &M) {
    match PointCloud2Msg::try_into_iter::<N, T>(m.msg()) {
        Err(_) => cover("rejected"),
        Ok(mut it) => {
            let mut n = 0usize;
            loop {
                match it.next() {
                    None => break,
                    Some(p) => {
                        for b in p.bits() {
                            emit(b);
                        }
                        n += 1;
                    }
                }
                check(n <= m.data.len(), "the iterator ends");
                if n > m.data.len() {
                    break;
                }
            }
            check(it.next().is_none(), "stays exhausted");
            emit(n as u64);
            cover("iterated");
            if n > 1 {
                cover("several points");
            }
        }
    }
}

#[cfg(feature = "rayon")]
fn iterate_back<const N: usize, T: Pt<N>>(m: &M) {
    use ros_pointcloud2::iterator::PointCloudIterator;
    match PointCloudIterator::<N, T>::try_from(m.msg()) {
        Err(_) => cover("rejected"),
        Ok(mut it) => {
            let mut n = 0usize;
            loop {
                match it.next_back() {
                    None => break,
                    Some(p) => {
                        for b in p.bits() {
                            emit(b);
                        }
                        n += 1;
                    }
                }
                check(n <= m.data.len(), "the iterator ends");
                if n > m.data.len() {
                    break;
                }
            }
            check(it.next_back().is_none(), "stays exhausted");
            emit(n as u64);
            cover("iterated");
        }
    }
}
#[cfg(not(feature = "rayon"))]
fn iterate_back<const N: usize, T: Pt<N>>(m: &M) {
    iterate::<N, T>(m)
}

fn any_iter<const N: usize, T: Pt<N>>(nf: u64, names: u64, len: u64, back: u64) {
    let m = arbitrary::<N, T>(nf, names, len);
    if back == 0 {
        iterate::<N, T>(&m)
    } else {
        iterate_back::<N, T>(&m)
    }
}

fn any_vec<const N: usize, T: Pt<N>>(nf: u64, names: u64, len: u64) {
    let m = arbitrary::<N, T>(nf, names, len);
    match PointCloud2Msg::try_into_vec::<N, T>(m.msg()) {
        Err(_) => cover("rejected"),
        Ok(v) => {
            for p in v.iter() {
                for b in p.bits() {
                    // branching on the value makes the use of an uninitialised byte an error
                    check(b == b.wrapping_add(0), "initialised");
                    emit(b);
                }
            }
            check(v.len() <= m.data.len(), "no more points than bytes");
            emit(v.len() as u64);
            cover("read");
        }
    }
}

/// try_into_vec and try_into_iter on the same message.
fn agree<const N: usize, T: Pt<N>>(m: &M) {
    let a = PointCloud2Msg::try_into_iter::<N, T>(m.msg());
    let b = PointCloud2Msg::try_into_vec::<N, T>(m.msg());
    match (a, b) {
        (Ok(it), Ok(v)) => {
            let w: Vec<T> = it.collect();
            check(w.len() == v.len(), "same number of points");
            for i in 0..w.len().min(v.len()) {
                let (x, y) = (w[i].bits(), v[i].bits());
                for k in 0..N {
                    check(x[k] == y[k], "same field values");
                    emit(y[k]);
                }
            }
            cover("both succeed");
        }
        (Err(_), Err(_)) => cover("both fail"),
        (Ok(_), Err(_)) => check(false, "vec succeeds where the iterator does"),
        (Err(_), Ok(_)) => check(false, "vec fails where the iterator does"),
    }
}

fn any_agree<const N: usize, T: Pt<N>>(nf: u64, names: u64, len: u64) {
    let m = arbitrary::<N, T>(nf, names, len);
    agree::<N, T>(&m)
}

/// Messages close to what byte copies accept: the struct's own layout with single deviations.
pub fn near_agree<const N: usize, T: Pt<N>>(dev: u64, w: u64, len: u64) {
    let mem = T::mem();
    let mut m = M {
        names: vec![],
        off: vec![],
        dt: vec![],
        cnt: vec![],
        big: false,
        width: w as u32,
        height: nd::u32_(),
        step: nd::u32_(),
        row_step: nd::u32_(),
        data: vec![],
        dense: nd::bool_(),
    };
    assume(m.step <= 2 * core::mem::size_of::<T>() as u32 + 8);
    assume(m.height <= 3);
    for k in 0..N {
        m.names.push(T::F[k].name);
        m.off.push(mem[k] as u32);
        m.dt.push(T::F[k].code);
        m.cnt.push(1);
    }
    let f = (nd::choose(N as u64)) as usize;
    match dev {
        0 => {}
        1 => m.off[f] = nd::u32_(),
        2 => m.dt[f] = nd::u8_(),
        3 => m.cnt[f] = nd::u32_(),
        4 => {
            let g = nd::choose(N as u64) as usize;
            m.names.swap(f, g);
        }
        5 => {
            // an extra field in front, between or behind
            m.names.insert(f, "other");
            m.off.insert(f, nd::u32_());
            m.dt.insert(f, nd::u8_());
            m.cnt.insert(f, nd::u32_());
        }
        6 => {
            m.names.remove(f);
            m.off.remove(f);
            m.dt.remove(f);
            m.cnt.remove(f);
        }
        7 => {
            // a duplicated field
            let n = m.names[f];
            m.names.push(n);
            m.off.push(nd::u32_());
            m.dt.push(nd::u8_());
            m.cnt.push(1);
        }
        _ => m.big = true,
    }
    m.data = nd::bytes(len as usize);
    agree::<N, T>(&m)
}

/// Error classification (C09).
fn errors<const N: usize, T: Pt<N>>(nf: u64, names: u64, len: u64) {
    let m = arbitrary::<N, T>(nf, names, len);
    let missing: Vec<&str> = T::F.iter().map(|f| f.name).filter(|n| m.find(n).is_none()).collect();
    let dup = T::F.iter().any(|f| m.names.iter().filter(|n| **n == f.name).count() > 1);
    let total = m.step as u128 * m.width as u128 * m.height as u128;
    // (decided here, once)
    let bad_len = if total != m.data.len() as u128 { cover("wrong length"); true } else { false };
    let mut bad_type = false;
    let mut bad_fit = false;
    let mut counts_one = true;
    let mut types_match = true;
    // (without branches, so that only the code under test splits the inputs into cases)
    for f in T::F.iter() {
        if let Some(i) = m.find(f.name) {
            let dt = m.dt[i];
            let known = (dt >= 1) & (dt <= 8);
            bad_type |= !known;
            // a field of another valid type takes that type's size
            let s = 1 + (dt >= 3) as u64 + 2 * (dt >= 5) as u64 + 4 * (dt == 8) as u64;
            bad_fit |= known & (m.off[i] as u64 + s > m.step as u64);
            counts_one &= m.cnt[i] == 1;
            types_match &= dt == f.code;
        }
    }
    let r = PointCloud2Msg::try_into_iter::<N, T>(m.msg()).map(|it| it.count() as u64);
    let v = PointCloud2Msg::try_into_vec::<N, T>(m.msg()).map(|v| v.len() as u64);
    for (which, r) in [("iter", r), ("vec", v)] {
        match r {
            Ok(n) => {
                check(missing.is_empty(), "a message without a requested field is rejected");
                if !dup {
                    check(!bad_type, "a requested field with an unknown datatype is rejected");
                    check(!bad_fit, "a requested field outside the point is rejected");
                }
                check(!bad_len, "a message with the wrong data length is rejected");
                check(n == m.width as u64 * m.height as u64, "accepted with width*height points");
                emit(n);
                cover("accepted");
            }
            Err(e) => {
                let benign = missing.is_empty() & !bad_type & !bad_fit & !bad_len & counts_one & types_match & !dup;
                check(!benign, "a message without defects is accepted");
                match e {
                    MsgConversionError::FieldsNotFound(names) => {
                        check(!missing.is_empty(), "FieldsNotFound only if names are missing");
                        check(names.len() == missing.len(), "exactly the missing names are reported");
                        for (a, b) in names.iter().zip(missing.iter()) {
                            check(a == b, "missing names are reported in order");
                        }
                        cover("FieldsNotFound");
                    }
                    _ if !missing.is_empty() => check(false, "missing names are reported as FieldsNotFound"),
                    #[cfg(feature = "std")]
                    MsgConversionError::UnsupportedFieldType(_) => {
                        check(bad_type | dup, "UnsupportedFieldType only for an unknown datatype");
                        cover("UnsupportedFieldType");
                    }
                    #[cfg(not(feature = "std"))]
                    MsgConversionError::UnsupportedFieldType => {
                        check(bad_type | dup, "UnsupportedFieldType only for an unknown datatype");
                        cover("UnsupportedFieldType");
                    }
                    MsgConversionError::DataLengthMismatch => {
                        check(bad_len | bad_fit | dup, "DataLengthMismatch only for a wrong length or a field outside the point");
                        cover("DataLengthMismatch");
                    }
                    _ => {
                        check(dup | !counts_one | !types_match, "no other error for these defects");
                    }
                }
            }
        }
        let _ = which;
    }
}

macro_rules! small_type {
    ($ty:expr, $f:ident, ($($a:expr),*)) => {
        match $ty {
            0 => $f::<1, M1>($($a),*),
            1 => $f::<2, M2>($($a),*),
            2 => $f::<2, MD>($($a),*),
            3 => $f::<3, ros_pointcloud2::points::PointXYZ>($($a),*),
            4 => $f::<3, M3>($($a),*),
            5 => $f::<2, MLead>($($a),*),
            6 => $f::<4, DR>($($a),*),
            _ => $f::<5, DC>($($a),*),
        }
    };
}

// point types without fields: nothing, or only padding
macro_rules! fieldless {
    ($t:ident, $l:expr, $($body:tt)*) => {
        #[derive(Clone, Copy, Default, Debug)]
        #[repr(C)]
        pub struct $t $($body)*
        impl From<RPCL2Point<0>> for $t {
            fn from(_: RPCL2Point<0>) -> Self { Self::default() }
        }
        impl From<$t> for RPCL2Point<0> {
            fn from(_: $t) -> Self { [].into() }
        }
        unsafe impl PointConvertible<0> for $t {
            fn layout() -> LayoutDescription { LayoutDescription::new(&$l) }
        }
    };
}
fieldless!(Nothing, [], ;);
fieldless!(Padding, [ros_pointcloud2::LayoutField::padding(4)], { _fill: u32 });

/// Point types without fields are treated alike by both readers of any message, and both writers.
fn no_fields<T: PointConvertible<0>>(nf: u64, len: u64) {
    let m = arbitrary::<1, M1>(nf, 0, len);
    let a = PointCloud2Msg::try_into_iter::<0, T>(m.msg()).is_ok();
    let b = PointCloud2Msg::try_into_vec::<0, T>(m.msg()).is_ok();
    check(a == b, "both readers treat a type without fields alike");
    for n in 0..3usize {
        let v = || (0..n).map(|_| T::default()).collect::<Vec<T>>();
        let a = PointCloud2Msg::try_from_vec::<0, T>(v()).is_ok();
        let b = PointCloud2Msg::try_from_iter::<0, T>(v()).is_ok();
        check(a == b, "both writers treat a type without fields alike");
    }
    emit(a as u64);
    cover("no fields");
}

// ty + 16*nf in the first argument
entries! {
    h_any_iter(tn, names, len, back) { small_type!(tn % 16, any_iter, (tn / 16, names, len, back)) }
    h_any_vec(tn, names, len) { small_type!(tn % 16, any_vec, (tn / 16, names, len)) }
    h_any_agree(tn, names, len) { small_type!(tn % 16, any_agree, (tn / 16, names, len)) }
    h_no_fields(ty, nf, len) {
        match ty {
            0 => no_fields::<Nothing>(nf, len),
            _ => no_fields::<Padding>(nf, len),
        }
    }
    h_near_agree(ty, dev, w, len) { small_type!(ty, near_agree, (dev, w, len)) }
    h_errors(tn, names, len) { small_type!(tn % 16, errors, (tn / 16, names, len)) }
}
