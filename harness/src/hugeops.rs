//! Clouds around and beyond 4 GiB (C23): vectors and messages of zeroed elements with symbolic lengths.
use crate::nd::{self, check, cover};
use crate::pts::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensionsBuilder, Denseness, Endian};

/// A vector of more points than fit, step = size_of::<C>(), up to 2^34 bytes. There is not enough memory
/// for a copy of it.
fn write<const N: usize, C: Pt<N> + Copy>() {
    let size = std::mem::size_of::<C>() as u64;
    let len = nd::u64_();
    let max = ((1u64 << 32) - 1) / size;
    let cap = (1 << 34) / size;
    nd::assume(len > max && len <= cap);
    let v: Vec<C> = unsafe { nd::huge(len as usize, cap as usize, false) };
    match PointCloud2Msg::try_from_vec(v) {
        Ok(_) => check(false, "a cloud beyond the 32-bit numbers of the message is refused"),
        Err(e) => {
            check(matches!(e, MsgConversionError::NumberConversion), "NumberConversion");
            cover("refused");
        }
    }
}

/// A message of `h` rows, in sum more than 4 GiB. what 0: iterator; 1: vec
fn read<const N: usize, C: Pt<N> + Copy>(h: u64, what: u64) {
    let size = std::mem::size_of::<C>() as u64;
    let off = C::mem();
    let fields: Vec<PointFieldMsg> = (0..N).map(|i| PointFieldMsg { name: C::F[i].name.into(), offset: off[i] as u32, datatype: C::F[i].code, count: 1 }).collect();
    let w = ((1u64 << 32) / h) / size + 1;
    let n = w * h;
    let data: Vec<u8> = unsafe { nd::huge((n * size) as usize, (n * size) as usize, true) };
    let mut dimensions = CloudDimensionsBuilder::new_with_width(w as usize).build().unwrap();
    dimensions.height = h as u32;
    let m = PointCloud2Msg {
        header: HeaderMsg::default(),
        dimensions,
        fields,
        endian: Endian::default(),
        point_step: size as u32,
        row_step: (w * size) as u32,
        data,
        dense: Denseness::Dense,
    };
    if what == 0 {
        match ros_pointcloud2::iterator::PointCloudIterator::<N, C>::try_from(m) {
            Ok(it) => {
                let k = nd::choose(4);
                check(it.size_hint().0 as u64 == n, "number of points of a large cloud");
                check(it.size_hint() == (n as usize, Some(n as usize)), "size hint of a large cloud");
                let (first, mut last) = it.split_at(n as usize - k as usize);
                check(first.size_hint().0 as u64 == n - k, "points before the split of a large cloud");
                check(last.size_hint().0 as u64 == k, "points behind the split of a large cloud");
                for i in 0..k {
                    let p = if i == 1 { back(&mut last) } else { last.next() };
                    match p {
                        Some(p) => check(p.bits().iter().all(|b| *b == 0), "values at the end of a large cloud"),
                        None => check(false, "the last points of a large cloud"),
                    }
                }
                check(last.next().is_none(), "nothing behind the last point of a large cloud");
                cover("iterator");
            }
            Err(_) => check(false, "a large cloud is accepted"),
        }
    } else {
        match m.try_into_vec::<N, C>() {
            Ok(v) => {
                check(v.len() as u64 == n, "number of points of a large cloud");
                check(v[v.len() - 1].bits().iter().all(|b| *b == 0), "values at the end of a large cloud");
                cover("vec");
            }
            Err(_) => check(false, "a large cloud is accepted"),
        }
    }
}

/// The builder with more than 4 GiB of data.
fn build() {
    let len = nd::u64_();
    let cap = 1u64 << 34;
    nd::assume(len >= 1 << 32 && len <= cap);
    let step = nd::u32_();
    let width = nd::u32_();
    let row = nd::u32_();
    let data: Vec<u8> = unsafe { nd::huge(len as usize, cap as usize, false) };
    let f = PointFieldMsg { name: "v".into(), offset: 0, datatype: U8, count: 1 };
    match ros_pointcloud2::PointCloud2MsgBuilder::new().fields(vec![f]).width(width).point_step(step).row_step(row).data(data).build() {
        Ok(m) => {
            check(step > 0 && len % step as u64 == 0, "data that is no multiple of point_step is an error");
            check(m.data.len() as u64 == len && m.point_step == step && m.row_step == row && m.dimensions.width == width, "values carried over");
            cover("built");
        }
        Err(e) => {
            check(step == 0 || len % step as u64 != 0, "whole points are accepted");
            check(matches!(e, MsgConversionError::DataLengthMismatch | MsgConversionError::InvalidFieldFormat), "DataLengthMismatch");
            cover("refused");
        }
    }
}

#[cfg(feature = "rayon")]
fn back<const N: usize, C: Pt<N>>(it: &mut ros_pointcloud2::iterator::PointCloudIterator<N, C>) -> Option<C> {
    it.next_back()
}
#[cfg(not(feature = "rayon"))]
fn back<const N: usize, C: Pt<N>>(it: &mut ros_pointcloud2::iterator::PointCloudIterator<N, C>) -> Option<C> {
    it.next()
}

entries! {
    h_huge_write(ty) {
        match ty {
            0 => write::<1, M1>(),
            1 => write::<2, M2>(),
            2 => write::<3, PointXYZ>(),
            3 => write::<4, PointXYZI>(),
            4 => write::<5, DC>(),
            5 => write::<8, MAll>(),
            6 => write::<6, PointXYZNormal>(),
            7 => write::<7, PointXYZINormal>(),
            8 => write::<4, PointXYZL>(),
            _ => write::<2, MD>(),
        }
    }
    h_huge_build() { build() }
    h_huge_read(ty, h, what) {
        match ty {
            0 => read::<3, PointXYZ>(h, what),
            1 => read::<2, M2>(h, what),
            2 => read::<5, DC>(h, what),
            _ => read::<2, MD>(h, what),
        }
    }
}
