//! What errors say (C26).
use crate::nd::{self, check, cover};
use core::fmt::Write;
use core::str::FromStr;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensions, Denseness, Endian};

const MAX: usize = 256;
struct Text {
    b: [u8; MAX],
    n: usize,
}
impl Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for x in s.bytes() {
            if self.n < MAX {
                self.b[self.n] = x;
            }
            self.n += 1;
        }
        Ok(())
    }
}
fn text(e: &MsgConversionError) -> Text {
    let mut t = Text { b: [0; MAX], n: 0 };
    check(write!(t, "{}", e).is_ok(), "an error can be shown");
    check(t.n > 0 && t.n <= MAX, "an error has a text");
    t
}
/// Does `s` occur in the text?
fn contains(t: &Text, s: &[u8]) -> bool {
    let mut r = false;
    for i in 0..t.n.min(MAX) {
        if i + s.len() > t.n {
            break;
        }
        let mut w = true;
        for k in 0..s.len() {
            w &= t.b[i + k] == s[k];
        }
        r |= w;
    }
    r
}
fn same(a: &Text, b: &Text) -> bool {
    let mut r = a.n == b.n;
    for i in 0..a.n.min(b.n).min(MAX) {
        r &= a.b[i] == b.b[i];
    }
    r
}
/// A name of `len` letters, digits or signs that need no escaping.
fn word(len: u64) -> String {
    let b = nd::bytes(len as usize);
    for x in &b {
        nd::assume(*x > 0x20 && *x < 0x7f && *x != b'"' && *x != b'\\' && *x != b'\'');
    }
    String::from_utf8(b).unwrap()
}
fn source(e: &MsgConversionError) {
    let _ = e;
    #[cfg(feature = "std")]
    check(std::error::Error::source(e).is_none(), "no other error behind it");
}

/// The datatype that was not understood.
fn unknown(len: u64) {
    let s = word(len);
    for n in ["i8", "u8", "i16", "u16", "i32", "u32", "f32", "f64", "rgb"] {
        nd::assume(s != n);
    }
    match FieldDatatype::from_str(&s) {
        Ok(_) => check(false, "an unknown datatype is an error"),
        Err(e) => {
            let t = text(&e);
            let _ = &t;
            #[cfg(feature = "std")]
            check(contains(&t, s.as_bytes()), "the text names the unknown datatype");
            source(&e);
            cover("unknown");
        }
    }
}

/// The fields that were not found.
fn missing(n: u64, len: u64) {
    let names: Vec<String> = (0..n).map(|i| word(len + i)).collect();
    let e = MsgConversionError::FieldsNotFound(names.clone());
    let t = text(&e);
    for s in &names {
        check(contains(&t, s.as_bytes()), "the text names every missing field");
    }
    source(&e);
    cover("missing");
}

/// A message that lacks fields of the point type, up to the text.
fn absent(len: u64) {
    let name = word(len);
    let field = |name: &str, offset: u32| PointFieldMsg { name: name.into(), offset, datatype: 7, count: 1 };
    let m = PointCloud2Msg {
        header: HeaderMsg::default(),
        dimensions: CloudDimensions { width: 1, height: 1 },
        fields: vec![field("x", 0), field("y", 4), field(&name, 12), field("z", 8)],
        endian: Endian::Little,
        point_step: 16,
        row_step: 16,
        data: vec![0; 16],
        dense: Denseness::Dense,
    };
    match m.try_into_iter::<4, ros_pointcloud2::points::PointXYZI>() {
        Ok(_) => check(name == "intensity", "a missing field is an error"),
        Err(e) => {
            check(matches!(e, MsgConversionError::FieldsNotFound(_)), "FieldsNotFound");
            check(contains(&text(&e), b"intensity"), "the text names the missing field");
            cover("absent");
        }
    }
}

/// Different kinds of errors have different texts.
fn kinds(len: u64) {
    let mut all = vec![
        MsgConversionError::InvalidFieldFormat,
        MsgConversionError::DataLengthMismatch,
        MsgConversionError::FieldsNotFound(vec![word(len)]),
        MsgConversionError::UnsupportedFieldCount,
        MsgConversionError::NumberConversion,
        MsgConversionError::ExhaustedSource,
    ];
    #[cfg(feature = "std")]
    all.push(MsgConversionError::UnsupportedFieldType(word(len)));
    #[cfg(not(feature = "std"))]
    all.push(MsgConversionError::UnsupportedFieldType);
    let t: Vec<Text> = all.iter().map(text).collect();
    for i in 0..t.len() {
        source(&all[i]);
        for k in 0..i {
            check(!same(&t[i], &t[k]), "different errors have different texts");
        }
    }
    let e: MsgConversionError = u8::try_from(300u32).unwrap_err().into();
    check(same(&text(&e), &t[4]), "a number that does not fit");
    cover("kinds");
}

entries! {
    h_err_unknown(len) { unknown(len) }
    h_err_missing(n, len) { missing(n, len) }
    h_err_absent(len) { absent(len) }
    h_err_kinds(len) { kinds(len) }
}
