//! Single values (C14) and the datatype table (C15).
use crate::nd::{self, check, cover, emit};
use crate::pts::*;
use core::str::FromStr;
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::PointData;

/// The value travels through every way of building a PointData and a buffer.
fn value<T: Prim + FromBytes>(x: T) {
    let size = size_of_code(T::CODE);
    let b = x.bits();
    let same = |y: T, msg: &'static str| {
        check(y.bits() == b, msg);
        emit(y.bits());
    };
    let p = PointData::new(x);
    same(p.get::<T>(), "PointData::new(x).get() is x");
    same(p.get::<T>(), "get can be repeated");
    let q = p;
    same(q.clone().get::<T>(), "a copy holds the same value");

    // little-endian bytes followed by zeros
    let buf: PointDataBuffer = x.into();
    check(buf.as_slice().len() == 8, "buffer of eight bytes");
    for i in 0..8 {
        let e = if i < size { (b >> (8 * i)) as u8 } else { 0 };
        check(buf.as_slice()[i] == e && buf[i] == e, "little-endian bytes, then zeros");
    }
    let raw = PointDataBuffer::from(x_into(x)).raw();
    for i in 0..8 {
        check(raw[i] == if i < size { (b >> (8 * i)) as u8 } else { 0 }, "raw bytes");
    }
    same(T::from_le_bytes(x.into()), "from_le_bytes inverts the encoding");
    cover("value");
}
fn x_into<T: FromBytes>(x: T) -> [u8; 8] {
    let b: PointDataBuffer = x.into();
    b.raw()
}

/// Decoding uses exactly the leading bytes of the type's size.
fn decode<T: Prim + FromBytes>() {
    let size = size_of_code(T::CODE);
    let v = nd::bytes(8);
    let mut a = [0u8; 8];
    a.copy_from_slice(&v);
    let (mut le, mut be) = (0u64, 0u64);
    for i in 0..size {
        le |= (a[i] as u64) << (8 * i);
        be |= (a[i] as u64) << (8 * (size - 1 - i));
    }
    let l = T::from_le_bytes(PointDataBuffer::new(a)).bits();
    let b = T::from_be_bytes(PointDataBuffer::new(a)).bits();
    check(l == le, "little endian decoding");
    check(b == be, "big endian decoding");
    emit(l);
    emit(b);
    // a slice of just the type's size
    let l = T::from_le_bytes(PointDataBuffer::from_slice(&v[..size])).bits();
    let b = T::from_be_bytes(PointDataBuffer::from(&v[..size])).bits();
    check(l == le, "little endian decoding of a short slice");
    check(b == be, "big endian decoding of a short slice");
    check(T::from_le_bytes(PointDataBuffer::from(a)).bits() == le, "decoding of an array");
    cover("decoded");
}

macro_rules! each_prim {
    ($ty:expr, $f:ident) => {
        match $ty {
            1 => $f::<i8>(),
            2 => $f::<u8>(),
            3 => $f::<i16>(),
            4 => $f::<u16>(),
            5 => $f::<i32>(),
            6 => $f::<u32>(),
            7 => $f::<f32>(),
            8 => $f::<f64>(),
            _ => $f::<RGB>(),
        }
    };
}
fn value_of<T: Prim + FromBytes>() {
    value(T::nd())
}

/// PointData through From, for the types that have it.
macro_rules! from_value {
    ($($t:ty),*) => {
        $({
            let x = <$t as Prim>::nd();
            let p: PointData = x.into();
            check(p.get::<$t>().bits() == x.bits(), "PointData::from(x).get() is x");
            let q = PointData::from(x);
            check(q.get::<$t>().bits() == x.bits(), "PointData::from(x).get() is x");
        })*
    };
}
macro_rules! from_array {
    ($($n:literal),*) => {
        $({
            let v = nd::bytes($n);
            let mut a = [0u8; $n];
            a.copy_from_slice(&v);
            let b = PointDataBuffer::from(a).raw();
            for i in 0..8 {
                check(b[i] == if i < $n { v[i] } else { 0 }, "the array, then zeros");
            }
        })*
    };
}

/// A point of PointData values: index access and conversion.
fn point() {
    let (a, b, c) = (nd::u32_(), f64::from_bits(nd::u64_()), nd::u8_() as i8);
    let p: RPCL2Point<3> = [PointData::new(a), PointData::new(b), PointData::new(c)].into();
    check(p[0].get::<u32>() == a, "first value of a point");
    check(p[1].get::<f64>().to_bits() == b.to_bits(), "second value of a point");
    check(p[2].get::<i8>() == c, "third value of a point");
    cover("point");
}

// ---------------------------------------------------------------- C15

fn name_of(code: u8) -> &'static str {
    ["", "i8", "u8", "i16", "u16", "i32", "u32", "f32", "f64"][code as usize]
}
fn dt_of(code: u8) -> FieldDatatype {
    [
        FieldDatatype::I8,
        FieldDatatype::U8,
        FieldDatatype::I16,
        FieldDatatype::U16,
        FieldDatatype::I32,
        FieldDatatype::U32,
        FieldDatatype::F32,
        FieldDatatype::F64,
    ][code as usize - 1]
}

fn code() {
    let c = nd::u8_();
    let f = PointFieldMsg { name: "n".into(), offset: nd::u32_(), datatype: c, count: nd::u32_() };
    let g = FieldDatatype::try_from(&f);
    match FieldDatatype::try_from(c) {
        Ok(d) => {
            check(c >= 1 && c <= 8, "only codes 1 to 8 are accepted");
            if c < 1 || c > 8 {
                return;
            }
            check(d == dt_of(c), "the code means this datatype");
            check(u8::from(d) == c, "the datatype has this code");
            check(d.size() == size_of_code(c), "size of the datatype");
            check(g.is_ok() && g.map(|x| x == d).unwrap_or(false), "the same datatype for a field message");
            let n = FieldDatatype::from_str(name_of(c));
            check(n.is_ok() && n.map(|x| x == d).unwrap_or(false), "the name means the same datatype");
            emit(d.size() as u64);
            cover("accepted");
        }
        Err(e) => {
            check(c < 1 || c > 8, "codes 1 to 8 are accepted");
            check(g.is_err(), "a field message with an unknown code is an error");
            check(unsupported(&e), "UnsupportedFieldType");
            #[cfg(feature = "std")]
            if let MsgConversionError::UnsupportedFieldType(s) = &e {
                check(s.parse::<u8>() == Ok(c), "the error names the code");
            }
            cover("rejected");
        }
    }
}
fn unsupported(e: &MsgConversionError) -> bool {
    #[cfg(feature = "std")]
    return matches!(e, MsgConversionError::UnsupportedFieldType(_));
    #[cfg(not(feature = "std"))]
    return matches!(e, MsgConversionError::UnsupportedFieldType);
}

/// Every ASCII string of this length.
fn name(len: u64) {
    let v = nd::bytes(len as usize);
    for b in v.iter() {
        nd::assume(*b < 128);
    }
    let s = match core::str::from_utf8(&v) {
        Ok(s) => s,
        Err(_) => return,
    };
    let eq = |n: &str| {
        let mut r = v.len() == n.len();
        for i in 0..v.len().min(n.len()) {
            r &= v[i] == n.as_bytes()[i];
        }
        r
    };
    match FieldDatatype::from_str(s) {
        Ok(d) => {
            let mut known = false;
            for c in 1..=8u8 {
                if eq(name_of(c)) {
                    known = true;
                    check(d == dt_of(c), "the name means this datatype");
                    check(u8::from(d) == c, "name and code agree");
                    check(d.size() == size_of_code(c), "name and size agree");
                }
            }
            if eq("rgb") {
                known = true;
                check(d == FieldDatatype::RGB, "rgb");
                check(u8::from(d) == F32 && d.size() == 4, "rgb is encoded as f32");
            }
            check(known, "unknown names are errors");
            cover("known name");
        }
        Err(e) => {
            for c in 1..=8u8 {
                check(!eq(name_of(c)), "the names of the datatypes are accepted");
            }
            check(!eq("rgb"), "rgb is accepted");
            check(unsupported(&e), "UnsupportedFieldType");
            cover("unknown name");
        }
    }
}

fn rust_type<T: Prim + GetFieldDatatype>() -> FieldDatatype {
    let d = T::field_datatype();
    check(u8::from(d) == T::CODE, "the code of the Rust type");
    check(d.size() == core::mem::size_of::<T>(), "the size of the Rust type");
    check(d.size() == size_of_code(T::CODE), "the size of the code");
    d
}

/// The table as the conversions use it: a message written from a point with this field type.
fn table() {
    check(rust_type::<i8>() == FieldDatatype::I8, "i8");
    check(rust_type::<u8>() == FieldDatatype::U8, "u8");
    check(rust_type::<i16>() == FieldDatatype::I16, "i16");
    check(rust_type::<u16>() == FieldDatatype::U16, "u16");
    check(rust_type::<i32>() == FieldDatatype::I32, "i32");
    check(rust_type::<u32>() == FieldDatatype::U32, "u32");
    check(rust_type::<f32>() == FieldDatatype::F32, "f32");
    check(rust_type::<f64>() == FieldDatatype::F64, "f64");
    check(rust_type::<RGB>() == FieldDatatype::RGB, "RGB");
    check(u8::from(FieldDatatype::RGB) == F32, "RGB is announced as f32");
    check(FieldDatatype::try_from(u8::from(FieldDatatype::RGB)).map(|d| d.size()).unwrap_or(0) == FieldDatatype::RGB.size(), "RGB is read as f32");
    // through both writers
    let v: Vec<MAll> = vec![MAll::nd()];
    let codes = [U8, F64, I8, I16, U16, I32, U32, F32];
    for m in [PointCloud2Msg::try_from_vec(v.clone()), PointCloud2Msg::try_from_iter(v)] {
        match m {
            Ok(m) => {
                check(m.fields.len() == 8, "all fields");
                for (f, c) in m.fields.iter().zip(codes.iter()) {
                    check(f.datatype == *c, "the written code");
                    check(FieldDatatype::try_from(f).is_ok(), "is read back");
                }
            }
            Err(_) => check(false, "writing succeeds"),
        }
    }
    cover("table");
}

/// Layout type names are matched without regard to case, and only known ones are accepted.
macro_rules! named {
    ($t:ident, $name:expr, $n:expr) => {
        #[derive(Clone, Copy, Default)]
        #[repr(C)]
        struct $t {
            v: u32,
        }
        impl From<RPCL2Point<1>> for $t {
            fn from(p: RPCL2Point<1>) -> Self {
                Self { v: p[0].get() }
            }
        }
        impl From<$t> for RPCL2Point<1> {
            fn from(p: $t) -> Self {
                [p.v.into()].into()
            }
        }
        unsafe impl PointConvertible<1> for $t {
            fn layout() -> LayoutDescription {
                LayoutDescription::new(&[LayoutField::new("v", $name, $n)])
            }
        }
    };
}
named!(Upper, "U32", 4);
named!(Unknown, "u33", 4);
named!(Long, "u64", 8);

fn layout_names() {
    let x = nd::u32_();
    match PointCloud2Msg::try_from_vec(vec![Upper { v: x }]) {
        Ok(m) => check(m.fields.len() == 1 && m.fields[0].datatype == U32, "upper case type name"),
        Err(_) => check(false, "upper case type names are known"),
    }
    match PointCloud2Msg::try_from_vec(vec![Unknown { v: x }]) {
        Ok(_) => check(false, "unknown type names are errors"),
        Err(e) => check(unsupported(&e), "UnsupportedFieldType"),
    }
    match PointCloud2Msg::try_from_vec(vec![Long { v: x }]) {
        Ok(_) => check(false, "u64 is not a datatype"),
        Err(e) => check(unsupported(&e), "UnsupportedFieldType"),
    }
    // reading raw into such a type is an error as well
    let m = PointCloud2Msg::try_from_vec(vec![Upper { v: x }]);
    if let Ok(m) = m {
        match m.try_into_vec::<1, Unknown>() {
            Ok(_) => check(false, "unknown type names are errors"),
            Err(e) => check(unsupported(&e), "UnsupportedFieldType"),
        }
    }
    cover("names");
}

entries! {
    h_value(ty) { each_prim!(ty, value_of) }
    h_decode(ty) { each_prim!(ty, decode) }
    h_pdata_from() {
        from_value!(i8, u8, i16, u16, i32, u32, f32, f64);
        from_array!(0, 1, 2, 3, 4, 5, 6, 7, 8);
        point();
        cover("from");
    }
    h_code() { code() }
    h_name(len) { name(len) }
    h_table() { table(); layout_names(); }
}
