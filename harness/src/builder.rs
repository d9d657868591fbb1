//! The message builder (C17).
use crate::nd::{self, check, cover, emit};
use crate::pts::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensionsBuilder, Denseness, Endian, PointCloud2MsgBuilder};

/// Any text of n bytes, the last two being one character if there are three.
fn text(n: u64) -> String {
    let b = nd::bytes(n as usize);
    let w = if n == 3 { 1 } else { b.len() };
    let mut ok = true;
    for x in &b[..w] {
        ok &= *x < 0x80;
    }
    if w < b.len() {
        ok &= (b[1] >= 0xC2) & (b[1] <= 0xDF) & (b[2] >= 0x80) & (b[2] <= 0xBF);
    }
    nd::assume(ok);
    unsafe { String::from_utf8_unchecked(b) }
}
fn same_text(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut r = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        r &= a[i] == b[i];
    }
    r
}

/// nf fields with arbitrary numbers, data of `len` bytes, in an order of builder calls.
fn build(nf: u64, len: u64, order: u64) {
    let mut fields = vec![];
    // any names, also equal ones
    let names = [text(2), text(2), text(0), text(3)];
    let frame = text(4 * (nf % 2));
    let (mut count_ok, mut type_ok) = (true, true);
    let mut sum = 0u64;
    for i in 0..nf as usize {
        let f = PointFieldMsg { name: names[i].clone(), offset: nd::u32_(), datatype: nd::u8_(), count: nd::u32_() };
        count_ok &= f.count == 1;
        let d = f.datatype;
        type_ok &= d >= 1 && d <= 8;
        // branch-free
        sum += (d == 1 || d == 2) as u64 + 2 * ((d == 3 || d == 4) as u64) + 4 * ((d == 5 || d == 6 || d == 7) as u64) + 8 * ((d == 8) as u64);
        fields.push(f);
    }
    let nums: Vec<(u32, u8, u32)> = fields.iter().map(|f| (f.offset, f.datatype, f.count)).collect();
    let data = nd::bytes(len as usize);
    let (width, step, row) = (nd::u32_(), nd::u32_(), nd::u32_());
    let (big, dense) = (nd::bool_(), nd::bool_());
    let (seq, sec, nano) = (nd::u32_(), nd::u32_() as i32, nd::u32_());
    let header = HeaderMsg { seq, stamp: TimeMsg { sec, nanosec: nano }, frame_id: frame.clone() };
    let copy = data.clone();
    let b = PointCloud2MsgBuilder::new();
    let b = if order == 0 {
        b.header(header).width(width).fields(fields).endian(big).point_step(step).row_step(row).data(data).dense(dense)
    } else {
        // values given before are replaced, in any order of the calls
        b.dense(!dense).data(vec![1, 2, 3]).row_step(1).point_step(9).endian(!big).fields(vec![]).width(77)
            .dense(dense).data(data).row_step(row).point_step(step).endian(big).fields(fields).width(width).header(header)
    };
    let len_ok = step != 0 && len % step as u64 == 0;
    match b.build() {
        Ok(m) => {
            check(nf > 0, "no fields is an error");
            check(count_ok, "a count other than 1 is an error");
            check(type_ok, "an unknown datatype is an error");
            check(step as u64 >= sum, "fields larger than point_step are an error");
            check(len_ok, "data that is no multiple of point_step is an error");
            check(m.dimensions.width == width, "width carried over");
            check(m.dimensions.height == (width > 0) as u32, "height is 1, or 0 for width 0");
            check(m.point_step == step && m.row_step == row, "steps carried over");
            check((m.endian == Endian::Big) == big && (m.endian == Endian::Little) == !big, "byte order carried over");
            check((m.dense == Denseness::Dense) == dense && (m.dense == Denseness::Sparse) == !dense, "density carried over");
            check(m.header.seq == seq && m.header.stamp.sec == sec && m.header.stamp.nanosec == nano && same_text(&m.header.frame_id, &frame), "header carried over");
            check(m.data.len() == copy.len(), "data carried over");
            for (a, b) in m.data.iter().zip(copy.iter()) {
                check(a == b, "data bytes carried over");
            }
            check(m.fields.len() == nums.len(), "fields carried over");
            for (i, f) in m.fields.iter().enumerate().take(nums.len()) {
                check(same_text(&f.name, &names[i]) && (f.offset, f.datatype, f.count) == nums[i], "field carried over");
            }
            emit(m.dimensions.height as u64);
            cover("built");
        }
        Err(e) => {
            let fine = nf > 0 && count_ok && type_ok && step as u64 >= sum && len_ok;
            check(!fine, "a consistent description is accepted");
            match e {
                MsgConversionError::FieldsNotFound(_) => {
                    check(nf == 0, "FieldsNotFound only without fields");
                    cover("FieldsNotFound");
                }
                MsgConversionError::UnsupportedFieldCount => {
                    check(nf > 0 && !count_ok, "UnsupportedFieldCount only for a count other than 1");
                    cover("UnsupportedFieldCount");
                }
                MsgConversionError::InvalidFieldFormat => {
                    check(nf > 0 && (step as u64) < sum, "InvalidFieldFormat only if point_step is too small");
                    cover("InvalidFieldFormat");
                }
                MsgConversionError::DataLengthMismatch => {
                    check(nf > 0 && !len_ok, "DataLengthMismatch only for a wrong length");
                    cover("DataLengthMismatch");
                }
                e => {
                    #[cfg(feature = "std")]
                    let u = matches!(e, MsgConversionError::UnsupportedFieldType(_));
                    #[cfg(not(feature = "std"))]
                    let u = matches!(e, MsgConversionError::UnsupportedFieldType);
                    check(u && nf > 0 && !type_ok, "UnsupportedFieldType only for an unknown datatype");
                    cover("UnsupportedFieldType");
                }
            }
        }
    }
}

/// Many fields, one of them, at a chosen position, with an arbitrary datatype and count.
/// sizes: 8 for f64 only, 0 for all datatypes in turn; + 16: only the last field is free.
fn many(nf: u64, sizes: u64) {
    let at = [0, 1, 2, 3, 7, 8, 15, 16, nf / 2, nf.saturating_sub(2), nf - 1];
    let at = if sizes & 16 != 0 { nf - 1 } else { at[nd::choose(at.len() as u64) as usize] % nf };
    let sizes = sizes & 15;
    let (d, c) = (nd::u8_(), nd::u32_());
    let mut sum = 0u64;
    let mut fields = vec![];
    for i in 0..nf {
        let (dt, count) = if i == at { (d, c) } else { (if sizes == 8 { F64 } else { (i % 8 + 1) as u8 }, 1) };
        if i == at {
            sum += (d == 1 || d == 2) as u64 + 2 * ((d == 3 || d == 4) as u64) + 4 * ((d == 5 || d == 6 || d == 7) as u64) + 8 * ((d == 8) as u64);
        } else {
            sum += size_of_code(dt) as u64;
        }
        fields.push(PointFieldMsg { name: String::new(), offset: i as u32, datatype: dt, count });
    }
    let (width, step, row) = (nd::u32_(), nd::u32_(), nd::u32_());
    let data = nd::bytes(3);
    let fine = c == 1 && d >= 1 && d <= 8 && step as u64 >= sum && step == 3;
    let empty = nd::choose(2) == 1;
    let fine = if empty { c == 1 && d >= 1 && d <= 8 && step as u64 >= sum && step > 0 } else { fine };
    match PointCloud2MsgBuilder::new().fields(fields).width(width).point_step(step).row_step(row).data(if empty { vec![] } else { data }).build() {
        Ok(m) => {
            check(fine, "only a consistent description is accepted");
            check(m.fields.len() as u64 == nf, "fields carried over");
            let mut same = true;
            for (i, f) in m.fields.iter().enumerate() {
                let (dt, count) = if i as u64 == at { (d, c) } else { (if sizes == 8 { F64 } else { (i % 8 + 1) as u8 }, 1) };
                same &= (f.offset == i as u32) & (f.datatype == dt) & (f.count == count) & f.name.is_empty();
            }
            check(same, "field carried over");
            cover("built");
        }
        Err(e) => {
            check(!fine, "a consistent description is accepted");
            match e {
                MsgConversionError::UnsupportedFieldCount => check(c != 1, "UnsupportedFieldCount only for a count other than 1"),
                MsgConversionError::InvalidFieldFormat => check((step as u64) < sum, "InvalidFieldFormat only if point_step is too small"),
                MsgConversionError::DataLengthMismatch => check(step == 0 || !empty && step != 1 && step != 3, "DataLengthMismatch only for a wrong length"),
                MsgConversionError::FieldsNotFound(_) => check(false, "FieldsNotFound only without fields"),
                e => {
                    #[cfg(feature = "std")]
                    let u = matches!(e, MsgConversionError::UnsupportedFieldType(_));
                    #[cfg(not(feature = "std"))]
                    let u = matches!(e, MsgConversionError::UnsupportedFieldType);
                    check(u && !(d >= 1 && d <= 8), "UnsupportedFieldType only for an unknown datatype");
                }
            }
            cover("refused");
        }
    }
}

/// CloudDimensionsBuilder for every width.
fn dims() {
    let w = nd::u64_() as usize;
    match CloudDimensionsBuilder::new_with_width(w).build() {
        Ok(d) => {
            check(w <= u32::MAX as usize, "a width beyond 32 bits is refused");
            check(d.width as usize == w && d.height == (w > 0) as u32, "dimensions");
            cover("accepted");
        }
        Err(e) => {
            check(w > u32::MAX as usize, "32-bit widths are accepted");
            check(matches!(e, MsgConversionError::NumberConversion), "NumberConversion");
            cover("refused");
        }
    }
}

fn defaults() {
    match PointCloud2MsgBuilder::default().build() {
        Ok(_) => check(false, "no fields is an error"),
        Err(e) => check(matches!(e, MsgConversionError::FieldsNotFound(_)), "FieldsNotFound"),
    }
    let f = PointFieldMsg { datatype: U8, ..Default::default() };
    match PointCloud2MsgBuilder::new().fields(vec![f]).point_step(1).build() {
        Ok(m) => {
            check(m.dimensions.width == 0 && m.dimensions.height == 0, "empty");
            check(m.row_step == 0 && m.data.is_empty() && m.endian == Endian::Little, "defaults");
            check(m.fields[0].count == 1 && m.fields[0].offset == 0 && m.fields[0].name.is_empty(), "default field");
        }
        Err(_) => check(false, "the smallest message is accepted"),
    }
    cover("defaults");
}

entries! {
    h_build(nf, len, order) { build(nf, len, order) }
    h_build_many(nf, sizes) { many(nf, sizes) }
    h_dims() { dims(); }
    h_build_defaults() { defaults() }
}
