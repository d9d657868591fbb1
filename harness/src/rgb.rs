//! RGB packing (C16).
use crate::nd::{self, check, cover, emit};
use core::fmt::Write;
use ros_pointcloud2::points::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::PointData;

struct Text {
    b: [u8; 64],
    n: usize,
}
impl Write for Text {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for x in s.bytes() {
            if self.n < 64 {
                self.b[self.n] = x;
            }
            self.n += 1;
        }
        Ok(())
    }
}
fn text() -> Text {
    Text { b: [0; 64], n: 0 }
}
fn is(t: &Text, s: &[u8]) -> bool {
    let mut r = t.n == s.len();
    for i in 0..s.len().min(64) {
        r &= t.b[i] == s[i];
    }
    r
}
fn channels(c: &RGB, r: u8, g: u8, b: u8) {
    check(c.r() == r, "red");
    check(c.g() == g, "green");
    check(c.b() == b, "blue");
    emit(c.raw().to_bits() as u64);
}

fn new() {
    let (r, g, b) = (nd::u8_(), nd::u8_(), nd::u8_());
    let c = RGB::new(r, g, b);
    channels(&c, r, g, b);
    let packed = (r as u32) << 16 | (g as u32) << 8 | b as u32;
    check(c.raw().to_bits() == packed, "packed value is 0x00RRGGBB");
    check(f32::from(c).to_bits() == packed, "as f32");
    channels(&RGB::new_from_packed(packed), r, g, b);
    channels(&RGB::new_from_packed_f32(f32::from_bits(packed)), r, g, b);
    channels(&RGB::from(c.raw()), r, g, b);
    check(RGB::new_from_packed(packed) == c, "equal colors");
    let d = c;
    channels(&d, r, g, b);
    check(RGB::default().raw().to_bits() == 0, "the default is black");
    cover("rgb");
}

fn packed() {
    let x = nd::u32_();
    for c in [RGB::new_from_packed(x), RGB::new_from_packed_f32(f32::from_bits(x)), RGB::from(f32::from_bits(x)), f32::from_bits(x).into()] {
        check(c.raw().to_bits() == x, "all 32 bits kept");
        check(f32::from(c).to_bits() == x, "all 32 bits kept as f32");
        channels(&c, (x >> 16) as u8, (x >> 8) as u8, x as u8);
        let b: PointDataBuffer = c.into();
        let raw = b.raw();
        for i in 0..8 {
            check(raw[i] == if i < 4 { (x >> (8 * i)) as u8 } else { 0 }, "message bytes");
        }
        check(<RGB as FromBytes>::from_le_bytes(PointDataBuffer::new(raw)).raw().to_bits() == x, "little endian bytes and back");
        check(<RGB as FromBytes>::from_be_bytes(PointDataBuffer::new(raw)).raw().to_bits() == x.swap_bytes(), "big endian bytes");
        let p = PointData::new(c);
        check(p.get::<RGB>().raw().to_bits() == x, "all 32 bits kept in a PointData");
        check(p.get::<f32>().to_bits() == x, "readable as f32");
    }
    cover("rgb");
}

fn set() {
    let x = nd::u32_();
    let v = nd::u8_();
    let mut c = RGB::new_from_packed(x);
    c.set_r(v);
    check(c.raw().to_bits() == (x & 0xff00ffff | (v as u32) << 16), "set_r changes only red");
    let mut c = RGB::new_from_packed(x);
    c.set_g(v);
    check(c.raw().to_bits() == (x & 0xffff00ff | (v as u32) << 8), "set_g changes only green");
    let mut c = RGB::new_from_packed(x);
    c.set_b(v);
    check(c.raw().to_bits() == (x & 0xffffff00 | v as u32), "set_b changes only blue");
    let (r, g, b) = (nd::u8_(), nd::u8_(), nd::u8_());
    c.set_b(b);
    c.set_r(r);
    c.set_g(g);
    channels(&c, r, g, b);
    cover("rgb");
}

fn equality() {
    let (x, y) = (nd::u32_(), nd::u32_());
    let (a, b) = (RGB::new_from_packed(x), RGB::new_from_packed(y));
    let e = x & 0xffffff == y & 0xffffff;
    check((a == b) == e, "equality of the three channels");
    check((a != b) == !e, "inequality");
    check((b == a) == e, "symmetric");
    if e {
        cover("equal");
    } else {
        cover("different");
    }
    // the same through a point
    let (mut p, mut q) = (PointXYZRGB::default(), PointXYZRGB::default());
    p.rgb = a;
    q.rgb = b;
    check((p == q) == e, "equality of points");
}

fn points() {
    let (r, g, b) = (nd::u8_(), nd::u8_(), nd::u8_());
    let p = PointXYZRGB::new(0.0, 0.0, 0.0, r, g, b);
    check(p.r() == r && p.g() == g && p.b() == b, "colors of PointXYZRGB");
    let p = PointXYZRGBA::new(0.0, 0.0, 0.0, r, g, b, 7);
    check(p.r() == r && p.g() == g && p.b() == b, "colors of PointXYZRGBA");
    let p = PointXYZRGBL::new(0.0, 0.0, 0.0, r, g, b, 7);
    check(p.r() == r && p.g() == g && p.b() == b, "colors of PointXYZRGBL");
    let p = PointXYZRGBNormal::new(0.0, 0.0, 0.0, RGB::new(r, g, b), 0.0, 0.0, 0.0);
    check(p.r() == r && p.g() == g && p.b() == b, "colors of PointXYZRGBNormal");
    cover("rgb");
}

fn hex(x: u8) -> u8 {
    if x < 10 {
        b'0' + x
    } else {
        b'A' + x - 10
    }
}

/// Display and Debug show the channels: one channel arbitrary, the others on a grid.
fn shown(which: u64) {
    let grid = [0u8, 9, 10, 15, 16, 99, 100, 171, 255];
    let mut c = [0u8; 3];
    for i in 0..3 {
        c[i] = if i as u64 == which { nd::u8_() } else { grid[nd::choose(9) as usize] };
    }
    let x = RGB::new(c[0], c[1], c[2]);
    let mut t = text();
    let _ = write!(t, "{}", x);
    let e = [b'#', hex(c[0] >> 4), hex(c[0] & 15), hex(c[1] >> 4), hex(c[1] & 15), hex(c[2] >> 4), hex(c[2] & 15)];
    check(is(&t, &e), "Display is #RRGGBB");
    cover("shown");
}

entries! {
    h_rgb_new() { new() }
    h_rgb_packed() { packed() }
    h_rgb_set() { set() }
    h_rgb_eq() { equality() }
    h_rgb_points() { points() }
    h_rgb_shown(which) { shown(which) }
}
