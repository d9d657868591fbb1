//! Serialization (C22): a data format that keeps the serde data model as a tree, read back in
//! four ways (named in order, positional, named in reverse order, fields and variants by number).
use crate::nd::{self, check, cover, emit};
use crate::pts::*;
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensions, Denseness, Endian};
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use serde::Deserialize;

#[derive(Clone)]
enum V {
    Unit,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<V>),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
    Struct(Vec<(&'static str, V)>),
    Variant(u32, &'static str, Box<V>),
}

#[derive(Debug)]
struct Bad;
impl core::fmt::Display for Bad {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Bad {}
impl ser::Error for Bad {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Bad
    }
}
impl de::Error for Bad {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Bad
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        Bad
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Bad
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Bad
    }
    fn missing_field(_: &'static str) -> Self {
        Bad
    }
    fn duplicate_field(_: &'static str) -> Self {
        Bad
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        Bad
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
        Bad
    }
}
type R<T> = Result<T, Bad>;

// ------------------------------------------------------------------ writing
struct W {
    human: bool,
}
struct Parts {
    human: bool,
    v: Vec<V>,
    variant: Option<(u32, &'static str)>,
}
struct Pairs {
    human: bool,
    v: Vec<(V, V)>,
}
struct Named {
    human: bool,
    v: Vec<(&'static str, V)>,
    variant: Option<(u32, &'static str)>,
}
fn wrap(variant: Option<(u32, &'static str)>, v: V) -> V {
    match variant {
        None => v,
        Some((i, n)) => V::Variant(i, n, Box::new(v)),
    }
}
macro_rules! plain {
    ($($f:ident, $t:ty, $k:ident;)*) => { $(fn $f(self, x: $t) -> R<V> { Ok(V::$k(x)) })* };
}
impl ser::Serializer for W {
    type Ok = V;
    type Error = Bad;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = Pairs;
    type SerializeStruct = Named;
    type SerializeStructVariant = Named;
    plain! {
        serialize_bool, bool, Bool; serialize_i8, i8, I8; serialize_i16, i16, I16; serialize_i32, i32, I32; serialize_i64, i64, I64;
        serialize_u8, u8, U8; serialize_u16, u16, U16; serialize_u32, u32, U32; serialize_u64, u64, U64;
        serialize_f32, f32, F32; serialize_f64, f64, F64; serialize_char, char, Char;
    }
    fn serialize_str(self, x: &str) -> R<V> {
        Ok(V::Str(x.to_string()))
    }
    fn serialize_bytes(self, x: &[u8]) -> R<V> {
        Ok(V::Bytes(x.to_vec()))
    }
    fn serialize_none(self) -> R<V> {
        Ok(V::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, x: &T) -> R<V> {
        Ok(V::Some(Box::new(x.serialize(self)?)))
    }
    fn serialize_unit(self) -> R<V> {
        Ok(V::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> R<V> {
        Ok(V::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> R<V> {
        Ok(V::Variant(i, n, Box::new(V::Unit)))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, x: &T) -> R<V> {
        x.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, n: &'static str, x: &T) -> R<V> {
        Ok(V::Variant(i, n, Box::new(x.serialize(self)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> R<Parts> {
        Ok(Parts { human: self.human, v: vec![], variant: None })
    }
    fn serialize_tuple(self, _: usize) -> R<Parts> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Parts> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> R<Parts> {
        Ok(Parts { human: self.human, v: vec![], variant: Some((i, n)) })
    }
    fn serialize_map(self, _: Option<usize>) -> R<Pairs> {
        Ok(Pairs { human: self.human, v: vec![] })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> R<Named> {
        Ok(Named { human: self.human, v: vec![], variant: None })
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> R<Named> {
        Ok(Named { human: self.human, v: vec![], variant: Some((i, n)) })
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}
macro_rules! parts {
    ($($t:ident, $f:ident;)*) => { $(impl ser::$t for Parts {
        type Ok = V;
        type Error = Bad;
        fn $f<T: Serialize + ?Sized>(&mut self, x: &T) -> R<()> { self.v.push(x.serialize(W { human: self.human })?); Ok(()) }
        fn end(self) -> R<V> { Ok(wrap(self.variant, V::Seq(self.v))) }
    })* };
}
parts! { SerializeSeq, serialize_element; SerializeTuple, serialize_element; SerializeTupleStruct, serialize_field; SerializeTupleVariant, serialize_field; }
macro_rules! named {
    ($($t:ident;)*) => { $(impl ser::$t for Named {
        type Ok = V;
        type Error = Bad;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, x: &T) -> R<()> { self.v.push((k, x.serialize(W { human: self.human })?)); Ok(()) }
        fn end(self) -> R<V> { Ok(wrap(self.variant, V::Struct(self.v))) }
    })* };
}
named! { SerializeStruct; SerializeStructVariant; }
impl ser::SerializeMap for Pairs {
    type Ok = V;
    type Error = Bad;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, x: &T) -> R<()> {
        self.v.push((x.serialize(W { human: self.human })?, V::Unit));
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, x: &T) -> R<()> {
        let y = x.serialize(W { human: self.human })?;
        if let Some(l) = self.v.last_mut() {
            l.1 = y;
        }
        Ok(())
    }
    fn end(self) -> R<V> {
        Ok(V::Map(self.v))
    }
}

// ------------------------------------------------------------------ reading
const POSITIONAL: u64 = 1;
const REVERSED: u64 = 2;
const NUMBERED: u64 = 3;

struct D {
    v: V,
    mode: u64,
}
impl D {
    fn strict(&self) -> bool {
        self.mode == POSITIONAL
    }
}
struct Items {
    v: std::vec::IntoIter<V>,
    mode: u64,
}
impl<'de> SeqAccess<'de> for Items {
    type Error = Bad;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> R<Option<S::Value>> {
        match self.v.next() {
            Some(v) => s.deserialize(D { v, mode: self.mode }).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.v.len())
    }
}
struct Entries {
    v: std::vec::IntoIter<(V, V)>,
    next: Option<V>,
    mode: u64,
}
impl<'de> MapAccess<'de> for Entries {
    type Error = Bad;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> R<Option<S::Value>> {
        match self.v.next() {
            Some((k, v)) => {
                self.next = Some(v);
                s.deserialize(D { v: k, mode: self.mode }).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> R<S::Value> {
        match self.next.take() {
            Some(v) => s.deserialize(D { v, mode: self.mode }),
            None => Err(Bad),
        }
    }
}
struct Choice {
    tag: V,
    v: V,
    mode: u64,
}
impl<'de> EnumAccess<'de> for Choice {
    type Error = Bad;
    type Variant = D;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> R<(S::Value, D)> {
        let t = s.deserialize(D { v: self.tag, mode: self.mode })?;
        Ok((t, D { v: self.v, mode: self.mode }))
    }
}
impl<'de> VariantAccess<'de> for D {
    type Error = Bad;
    fn unit_variant(self) -> R<()> {
        match self.v {
            V::Unit => Ok(()),
            _ => Err(Bad),
        }
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> R<S::Value> {
        s.deserialize(self)
    }
    fn tuple_variant<X: Visitor<'de>>(self, _: usize, x: X) -> R<X::Value> {
        de::Deserializer::deserialize_any(D { v: self.v, mode: 0 }, x)
    }
    fn struct_variant<X: Visitor<'de>>(self, f: &'static [&'static str], x: X) -> R<X::Value> {
        de::Deserializer::deserialize_struct(self, "", f, x)
    }
}
macro_rules! exactly {
    ($($f:ident, $k:ident, $g:ident;)*) => {
        $(fn $f<X: Visitor<'de>>(self, x: X) -> R<X::Value> {
            match self.v {
                V::$k(y) => x.$g(y),
                _ if self.strict() => Err(Bad),
                _ => self.deserialize_any(x),
            }
        })*
    };
}
impl<'de> de::Deserializer<'de> for D {
    type Error = Bad;
    /// what the format stores, as a self-describing format would
    fn deserialize_any<X: Visitor<'de>>(self, x: X) -> R<X::Value> {
        let mode = self.mode;
        match self.v {
            V::Unit => x.visit_unit(),
            V::Bool(y) => x.visit_bool(y),
            V::I8(y) => x.visit_i8(y),
            V::I16(y) => x.visit_i16(y),
            V::I32(y) => x.visit_i32(y),
            V::I64(y) => x.visit_i64(y),
            V::U8(y) => x.visit_u8(y),
            V::U16(y) => x.visit_u16(y),
            V::U32(y) => x.visit_u32(y),
            V::U64(y) => x.visit_u64(y),
            V::F32(y) => x.visit_f32(y),
            V::F64(y) => x.visit_f64(y),
            V::Char(y) => x.visit_char(y),
            V::Str(y) => x.visit_string(y),
            V::Bytes(y) => x.visit_byte_buf(y),
            V::None => x.visit_none(),
            V::Some(y) => x.visit_some(D { v: *y, mode }),
            V::Seq(y) => x.visit_seq(Items { v: y.into_iter(), mode }),
            V::Map(y) => x.visit_map(Entries { v: y.into_iter(), next: None, mode }),
            V::Struct(y) => {
                let mut e: Vec<(V, V)> = y.into_iter().map(|(k, v)| (V::Str(k.to_string()), v)).collect();
                if mode == REVERSED {
                    e.reverse();
                }
                x.visit_map(Entries { v: e.into_iter(), next: None, mode })
            }
            V::Variant(_, n, y) => x.visit_enum(Choice { tag: V::Str(n.to_string()), v: *y, mode }),
        }
    }
    exactly! {
        deserialize_bool, Bool, visit_bool; deserialize_i8, I8, visit_i8; deserialize_i16, I16, visit_i16; deserialize_i32, I32, visit_i32;
        deserialize_i64, I64, visit_i64; deserialize_u8, U8, visit_u8; deserialize_u16, U16, visit_u16; deserialize_u32, U32, visit_u32;
        deserialize_u64, U64, visit_u64; deserialize_f32, F32, visit_f32; deserialize_f64, F64, visit_f64; deserialize_char, Char, visit_char;
        deserialize_string, Str, visit_string; deserialize_byte_buf, Bytes, visit_byte_buf;
    }
    fn deserialize_str<X: Visitor<'de>>(self, x: X) -> R<X::Value> {
        match self.v {
            V::Str(y) => x.visit_str(&y),
            _ if self.strict() => Err(Bad),
            _ => self.deserialize_any(x),
        }
    }
    fn deserialize_bytes<X: Visitor<'de>>(self, x: X) -> R<X::Value> {
        match self.v {
            V::Bytes(y) => x.visit_bytes(&y),
            _ if self.strict() => Err(Bad),
            _ => self.deserialize_any(x),
        }
    }
    fn deserialize_option<X: Visitor<'de>>(self, x: X) -> R<X::Value> {
        match self.v {
            V::None | V::Some(_) => self.deserialize_any(x),
            _ => Err(Bad),
        }
    }
    fn deserialize_unit<X: Visitor<'de>>(self, x: X) -> R<X::Value> {
        match self.v {
            V::Unit => x.visit_unit(),
            _ => Err(Bad),
        }
    }
    fn deserialize_unit_struct<X: Visitor<'de>>(self, _: &'static str, x: X) -> R<X::Value> {
        self.deserialize_unit(x)
    }
    fn deserialize_newtype_struct<X: Visitor<'de>>(self, _: &'static str, x: X) -> R<X::Value> {
        x.visit_newtype_struct(self)
    }
    fn deserialize_seq<X: Visitor<'de>>(self, x: X) -> R<X::Value> {
        match self.v {
            V::Seq(_) => self.deserialize_any(x),
            _ if self.strict() => Err(Bad),
            _ => self.deserialize_any(x),
        }
    }
    fn deserialize_tuple<X: Visitor<'de>>(self, n: usize, x: X) -> R<X::Value> {
        match &self.v {
            V::Seq(y) if y.len() == n => self.deserialize_any(x),
            _ => Err(Bad),
        }
    }
    fn deserialize_tuple_struct<X: Visitor<'de>>(self, _: &'static str, n: usize, x: X) -> R<X::Value> {
        self.deserialize_tuple(n, x)
    }
    fn deserialize_map<X: Visitor<'de>>(self, x: X) -> R<X::Value> {
        match self.v {
            V::Map(_) => self.deserialize_any(x),
            _ if self.strict() => Err(Bad),
            _ => self.deserialize_any(x),
        }
    }
    fn deserialize_struct<X: Visitor<'de>>(self, _: &'static str, fields: &'static [&'static str], x: X) -> R<X::Value> {
        let mode = self.mode;
        match self.v {
            V::Struct(y) if mode == POSITIONAL => {
                // a reader that knows only positions takes as many as it knows fields
                if y.len() != fields.len() {
                    return Err(Bad);
                }
                x.visit_seq(Items { v: y.into_iter().map(|(_, v)| v).collect::<Vec<V>>().into_iter(), mode })
            }
            V::Struct(y) if mode == NUMBERED => {
                let e: Vec<(V, V)> = y.into_iter().enumerate().map(|(i, (_, v))| (V::U64(i as u64), v)).collect();
                x.visit_map(Entries { v: e.into_iter(), next: None, mode })
            }
            _ if mode == POSITIONAL => Err(Bad),
            _ => self.deserialize_any(x),
        }
    }
    fn deserialize_enum<X: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], x: X) -> R<X::Value> {
        match self.v {
            V::Variant(i, _, y) if self.mode == POSITIONAL || self.mode == NUMBERED => x.visit_enum(Choice { tag: V::U32(i), v: *y, mode: self.mode }),
            V::Variant(..) => self.deserialize_any(x),
            _ => Err(Bad),
        }
    }
    fn deserialize_identifier<X: Visitor<'de>>(self, x: X) -> R<X::Value> {
        D { v: self.v, mode: 0 }.deserialize_any(x)
    }
    fn deserialize_ignored_any<X: Visitor<'de>>(self, x: X) -> R<X::Value> {
        x.visit_unit()
    }
    fn is_human_readable(&self) -> bool {
        self.mode == 0 || self.mode == REVERSED
    }
}

fn trip<T: Serialize + for<'a> Deserialize<'a>>(x: &T, mode: u64) -> Option<T> {
    let v = match x.serialize(W { human: mode == 0 || mode == REVERSED }) {
        Ok(v) => v,
        Err(_) => {
            check(false, "serializing succeeds");
            return None;
        }
    };
    match T::deserialize(D { v, mode }) {
        Ok(y) => Some(y),
        Err(_) => {
            check(false, "deserializing succeeds");
            None
        }
    }
}

// ------------------------------------------------------------------ checks
fn same_text(a: &str, b: &str, msg: &'static str) {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut r = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        r &= a[i] == b[i];
    }
    check(r, msg);
}

/// Any ASCII text of n bytes.
fn ascii(n: usize) -> String {
    let b = nd::bytes(n);
    let mut ok = true;
    for x in &b {
        ok &= *x < 0x80;
    }
    nd::assume(ok);
    unsafe { String::from_utf8_unchecked(b) }
}

fn message(mode: u64, nf: u64, len: u64) {
    let names = [ascii(3), String::new(), "größe".into()];
    let frame: String = match nd::choose(3) {
        0 => "map".into(),
        1 => String::new(),
        _ => ascii(5),
    };
    let m = PointCloud2Msg {
        header: HeaderMsg { seq: nd::u32_(), stamp: TimeMsg { sec: nd::u32_() as i32, nanosec: nd::u32_() }, frame_id: frame },
        dimensions: CloudDimensions { width: nd::u32_(), height: nd::u32_() },
        fields: (0..nf as usize).map(|i| PointFieldMsg { name: names[i % 3].clone(), offset: nd::u32_(), datatype: nd::u8_(), count: nd::u32_() }).collect(),
        endian: if nd::bool_() { Endian::Big } else { Endian::Little },
        point_step: nd::u32_(),
        row_step: nd::u32_(),
        data: nd::bytes(len as usize),
        dense: if nd::bool_() { Denseness::Dense } else { Denseness::Sparse },
    };
    let b = match trip(&m, mode) {
        Some(b) => b,
        None => return,
    };
    check(b.header.seq == m.header.seq, "seq");
    check(b.header.stamp.sec == m.header.stamp.sec, "stamp seconds");
    check(b.header.stamp.nanosec == m.header.stamp.nanosec, "stamp nanoseconds");
    same_text(&b.header.frame_id, &m.header.frame_id, "frame");
    check(b.dimensions.width == m.dimensions.width, "width");
    check(b.dimensions.height == m.dimensions.height, "height");
    check(b.fields.len() == m.fields.len(), "number of fields");
    for (x, y) in b.fields.iter().zip(m.fields.iter()) {
        same_text(&x.name, &y.name, "field name");
        check(x.offset == y.offset && x.datatype == y.datatype && x.count == y.count, "field");
    }
    check(b.endian == m.endian, "byte order");
    check(b.point_step == m.point_step && b.row_step == m.row_step, "steps");
    check(b.data.len() == m.data.len(), "data length");
    for (x, y) in b.data.iter().zip(m.data.iter()) {
        check(x == y, "data byte");
    }
    check(b.dense == m.dense, "density");
    emit(b.point_step as u64);
    cover("message");
}

fn point<const N: usize, T: Pt<N> + Serialize + for<'a> Deserialize<'a>>(mode: u64, n: u64) {
    let mut v: Vec<T> = vec![];
    let mut b = vec![];
    for _ in 0..n {
        let p = T::nd();
        b.push(p.bits());
        v.push(p);
    }
    for (p, b) in v.iter().zip(b.iter()) {
        if let Some(q) = trip(p, mode) {
            let q = q.bits();
            for i in 0..N {
                check(q[i] == b[i], "field of a point");
                emit(q[i]);
            }
        }
    }
    if let Some(w) = trip(&v, mode) {
        check(w.len() == b.len(), "number of points");
        for (q, b) in w.iter().zip(b.iter()) {
            check(q.bits() == *b, "field of a point in a list");
        }
    }
    cover("point");
}

fn rgb(mode: u64) {
    let x = nd::u32_();
    if let Some(c) = trip(&RGB::new_from_packed(x), mode) {
        check(c.raw().to_bits() == x, "all 32 bits of a color");
        emit(c.raw().to_bits() as u64);
    }
    if let Some(d) = trip(&CloudDimensions { width: x, height: !x }, mode) {
        check(d.width == x && d.height == !x, "dimensions");
    }
    for e in [Endian::Big, Endian::Little] {
        if let Some(f) = trip(&e, mode) {
            check(f == e, "byte order");
        }
    }
    for e in [Denseness::Dense, Denseness::Sparse] {
        if let Some(f) = trip(&e, mode) {
            check(f == e, "density");
        }
    }
    if let Some(t) = trip(&TimeMsg { sec: x as i32, nanosec: !x }, mode) {
        check(t.sec == x as i32 && t.nanosec == !x, "time");
    }
    cover("rgb");
}

/// A cloud that is stored in between.
fn cloud(mode: u64, n: u64) {
    let mut v: Vec<PointXYZRGBA> = vec![];
    let mut b = vec![];
    for _ in 0..n {
        let p = PointXYZRGBA::nd();
        b.push(p.bits());
        v.push(p);
    }
    let m = match PointCloud2Msg::try_from_iter(v) {
        Ok(m) => m,
        Err(_) => {
            check(false, "writing succeeds");
            return;
        }
    };
    if let Some(m) = trip(&m, mode) {
        match m.try_into_vec::<5, PointXYZRGBA>() {
            Ok(w) => {
                check(w.len() == b.len(), "number of points");
                for (q, b) in w.iter().zip(b.iter()) {
                    check(q.bits() == *b, "point of the cloud");
                }
            }
            Err(_) => check(false, "reading succeeds"),
        }
    }
    cover("cloud");
}

entries! {
    h_ser_msg(mode, nf, len) { message(mode, nf, len) }
    h_ser_point(ty, mode, n) {
        match ty {
            0 => point::<3, PointXYZ>(mode, n),
            1 => point::<4, PointXYZI>(mode, n),
            2 => point::<4, PointXYZL>(mode, n),
            3 => point::<4, PointXYZRGB>(mode, n),
            4 => point::<5, PointXYZRGBA>(mode, n),
            5 => point::<7, PointXYZRGBNormal>(mode, n),
            6 => point::<7, PointXYZINormal>(mode, n),
            7 => point::<5, PointXYZRGBL>(mode, n),
            _ => point::<6, PointXYZNormal>(mode, n),
        }
    }
    h_ser_rgb(mode) { rgb(mode) }
    h_ser_cloud(mode, n) { cloud(mode, n) }
}
