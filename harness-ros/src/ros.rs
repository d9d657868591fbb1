use crate::nd::{self, check, cover, emit};
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::ros::{HeaderMsg, PointFieldMsg, TimeMsg};
use ros_pointcloud2::{CloudDimensions, Denseness, Endian};

/// What differs between the libraries.
#[cfg(feature = "jazzy")]
mod library {
    pub use ros2_interfaces_jazzy::builtin_interfaces::msg::Time;
    pub use ros2_interfaces_jazzy::sensor_msgs::msg::{PointCloud2 as Ros, PointField as Field};
    pub use ros2_interfaces_jazzy::std_msgs::msg::Header;
}
#[cfg(feature = "r2r")]
mod library {
    pub use r2r::builtin_interfaces::msg::Time;
    pub use r2r::sensor_msgs::msg::{PointCloud2 as Ros, PointField as Field};
    pub use r2r::std_msgs::msg::Header;
}
#[cfg(not(feature = "ros1"))]
mod version {
    use super::{Header, Time};
    pub fn time(sec: u32, nanosec: u32) -> Time {
        Time { sec: sec as i32, nanosec }
    }
    pub fn sec(t: &Time) -> i32 {
        t.sec
    }
    pub fn nano(t: &Time) -> u32 {
        t.nanosec
    }
    pub fn head(stamp: Time, frame_id: String) -> Header {
        Header { stamp, frame_id }
    }
    /// ROS 2 messages have no sequence number
    pub fn seq(_: &Header) -> Option<u32> {
        None
    }
}
#[cfg(feature = "ros1")]
mod library {
    pub use rosrust::Time;
    pub use rosrust_msg::sensor_msgs::{PointCloud2 as Ros, PointField as Field};
    pub use rosrust_msg::std_msgs::Header;
}
#[cfg(feature = "ros1")]
mod version {
    use super::{Header, Time};
    pub fn time(sec: u32, nsec: u32) -> Time {
        Time { sec, nsec }
    }
    /// the 32 bits of the number of seconds
    pub fn sec(t: &Time) -> i32 {
        t.sec as i32
    }
    pub fn nano(t: &Time) -> u32 {
        t.nsec
    }
    pub fn head(stamp: Time, frame_id: String) -> Header {
        Header { seq: crate::nd::u32_(), stamp, frame_id }
    }
    pub fn seq(h: &Header) -> Option<u32> {
        Some(h.seq)
    }
}
use library::*;
use version::*;

fn same_stamp(a: &Time, b: &Time) -> bool {
    sec(a) == sec(b) && nano(a) == nano(b)
}

/// Any text of len bytes: ASCII, or (wide) ending in any two-byte character.
fn text(len: u64, wide: bool) -> String {
    let v = nd::bytes(len as usize);
    let n = v.len() - if wide && len >= 2 { 2 } else { 0 };
    let mut ok = true;
    for b in v[..n].iter() {
        ok &= *b < 128;
    }
    if n < v.len() {
        ok &= (v[n] >= 0xC2) & (v[n] <= 0xDF) & (v[n + 1] >= 0x80) & (v[n + 1] <= 0xBF);
    }
    nd::assume(ok);
    unsafe { String::from_utf8_unchecked(v) }
}
fn same_text(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut r = a.len() == b.len();
    for i in 0..a.len().min(b.len()) {
        r &= a[i] == b[i];
    }
    r
}
/// Any len bytes, in a buffer with or without spare capacity.
fn data(len: u64) -> Vec<u8> {
    let b = nd::bytes(len as usize);
    if nd::choose(2) == 0 {
        return b;
    }
    let mut v = Vec::with_capacity(len as usize + 9);
    v.extend_from_slice(&b);
    v
}
fn same_data(a: &[u8], b: &[u8]) {
    check(a.len() == b.len(), "data length");
    for i in 0..a.len().min(b.len()) {
        check(a[i] == b[i], "data bytes");
    }
}

fn lib(nf: u64, len: u64, name: u64) -> PointCloud2Msg {
    PointCloud2Msg {
        header: HeaderMsg { seq: nd::u32_(), stamp: TimeMsg { sec: nd::u32_() as i32, nanosec: nd::u32_() }, frame_id: text(name, nd::choose(2) == 1) },
        dimensions: CloudDimensions { width: nd::u32_(), height: nd::u32_() },
        fields: (0..nf).map(|i| PointFieldMsg { name: text(name, i & 1 == 1), offset: nd::u32_(), datatype: nd::u8_(), count: nd::u32_() }).collect(),
        endian: if nd::bool_() { Endian::Big } else { Endian::Little },
        point_step: nd::u32_(),
        row_step: nd::u32_(),
        data: data(len),
        dense: if nd::bool_() { Denseness::Dense } else { Denseness::Sparse },
    }
}
fn ros(nf: u64, len: u64, name: u64) -> Ros {
    Ros {
        header: head(time(nd::u32_(), nd::u32_()), text(name, nd::choose(2) == 1)),
        height: nd::u32_(),
        width: nd::u32_(),
        fields: (0..nf)
            .map(|i| Field { name: text(name, i & 1 == 1), offset: nd::u32_(), datatype: nd::u8_(), count: nd::u32_() })
            .collect(),
        is_bigendian: nd::bool_(),
        point_step: nd::u32_(),
        row_step: nd::u32_(),
        data: data(len),
        is_dense: nd::bool_(),
    }
}

/// The two messages say the same.
fn equal(l: &PointCloud2Msg, r: &Ros) {
    check(l.header.stamp.sec == sec(&r.header.stamp) && l.header.stamp.nanosec == nano(&r.header.stamp), "stamp");
    if let Some(s) = seq(&r.header) {
        check(l.header.seq == s, "sequence number");
    }
    check(same_text(&l.header.frame_id, &r.header.frame_id), "frame");
    check(l.dimensions.width == r.width, "width");
    check(l.dimensions.height == r.height, "height");
    check(l.fields.len() == r.fields.len(), "number of fields");
    for (a, b) in l.fields.iter().zip(r.fields.iter()) {
        check(same_text(&a.name, &b.name), "field name");
        check(a.offset == b.offset, "field offset");
        check(a.datatype == b.datatype, "field datatype");
        check(a.count == b.count, "field count");
    }
    check((l.endian == Endian::Big) == r.is_bigendian, "byte order");
    check(l.point_step == r.point_step, "point_step");
    check(l.row_step == r.row_step, "row_step");
    check((l.dense == Denseness::Dense) == r.is_dense, "density");
    same_data(&l.data, &r.data);
    emit(r.width as u64);
}

fn there_and_back(nf: u64, len: u64, name: u64) {
    let m = lib(nf, len, name);
    let copy = m.clone();
    let at = m.data.as_ptr() as usize;
    let r: Ros = m.into();
    check(r.data.as_ptr() as usize == at, "the buffer is moved");
    equal(&copy, &r);
    let rc = r.clone();
    let at = r.data.as_ptr() as usize;
    let b: PointCloud2Msg = r.into();
    check(b.data.as_ptr() as usize == at, "the buffer is moved back");
    equal(&b, &rc);
    check(b.header.stamp.sec == copy.header.stamp.sec && b.header.stamp.nanosec == copy.header.stamp.nanosec, "stamp kept");
    check(seq(&rc.header).is_none() || b.header.seq == copy.header.seq, "sequence number kept");
    check(same_text(&b.header.frame_id, &copy.header.frame_id), "frame kept");
    check(b.dimensions.width == copy.dimensions.width && b.dimensions.height == copy.dimensions.height, "dimensions kept");
    check(b.endian == copy.endian && b.dense == copy.dense, "flags kept");
    check(b.point_step == copy.point_step && b.row_step == copy.row_step, "steps kept");
    check(b.fields.len() == copy.fields.len(), "fields kept");
    same_data(&b.data, &copy.data);
    cover("there and back");
}

fn back_and_there(nf: u64, len: u64, name: u64) {
    let r = ros(nf, len, name);
    let copy = r.clone();
    let at = r.data.as_ptr() as usize;
    let m = PointCloud2Msg::from(r);
    check(m.data.as_ptr() as usize == at, "the buffer is moved");
    equal(&m, &copy);
    let at = m.data.as_ptr() as usize;
    let b = Ros::from(m);
    check(b.data.as_ptr() as usize == at, "the buffer is moved back");
    check(same_stamp(&b.header.stamp, &copy.header.stamp), "stamp kept");
    check(seq(&b.header) == seq(&copy.header), "sequence number kept");
    check(same_text(&b.header.frame_id, &copy.header.frame_id), "frame kept");
    check(b.width == copy.width && b.height == copy.height, "dimensions kept");
    check(b.is_bigendian == copy.is_bigendian && b.is_dense == copy.is_dense, "flags kept");
    check(b.point_step == copy.point_step && b.row_step == copy.row_step, "steps kept");
    check(b.fields.len() == copy.fields.len(), "fields kept");
    for (x, y) in b.fields.iter().zip(copy.fields.iter()) {
        check(same_text(&x.name, &y.name) && x.offset == y.offset && x.datatype == y.datatype && x.count == y.count, "field kept");
    }
    same_data(&b.data, &copy.data);
    cover("back and there");
}

fn header(name: u64) {
    let t = time(nd::u32_(), nd::u32_());
    let h = head(t.clone(), text(name, nd::choose(2) == 1));
    #[cfg(not(feature = "r2r"))]
    {
        let x = TimeMsg::from(t.clone());
        check(x.sec == sec(&t) && x.nanosec == nano(&t), "time");
    }
    header_msg(h);
    cover("header");
}
#[cfg(feature = "jazzy")]
fn header_msg(h: Header) {
    let c = h.clone();
    let y = HeaderMsg::from(h);
    check(y.stamp.sec == sec(&c.stamp) && y.stamp.nanosec == nano(&c.stamp), "header stamp");
    check(same_text(&y.frame_id, &c.frame_id), "header frame");
}
#[cfg(not(feature = "jazzy"))]
fn header_msg(_: Header) {}

/// A cloud that travels as a ROS message is still the same cloud.
fn cloud(n: u64) {
    let mut v = vec![];
    let mut b = vec![];
    for _ in 0..n {
        let p = [nd::u32_(), nd::u32_(), nd::u32_(), nd::u32_()];
        b.push(p);
        let f = f32::from_bits;
        v.push(ros_pointcloud2::points::PointXYZI::new(f(p[0]), f(p[1]), f(p[2]), f(p[3])));
    }
    let m = match PointCloud2Msg::try_from_vec(v) {
        Ok(m) => m,
        Err(_) => {
            check(false, "writing succeeds");
            return;
        }
    };
    let r: Ros = m.into();
    check(r.width as u64 == n && r.height == (n > 0) as u32, "dimensions of the ROS message");
    let m: PointCloud2Msg = r.into();
    match m.try_into_iter::<4, ros_pointcloud2::points::PointXYZI>() {
        Ok(it) => {
            let w: Vec<_> = it.collect();
            check(w.len() as u64 == n, "number of points");
            for (x, y) in w.iter().zip(b.iter()) {
                check([x.x.to_bits(), x.y.to_bits(), x.z.to_bits(), x.intensity.to_bits()] == *y, "point kept");
            }
        }
        Err(_) => check(false, "reading succeeds"),
    }
    cover("cloud");
}

entries! {
    h_ros_lib(nf, len, name) { there_and_back(nf, len, name) }
    h_ros_msg(nf, len, name) { back_and_there(nf, len, name) }
    h_ros_header(name) { header(name) }
    h_ros_cloud(n) { cloud(n) }
}
