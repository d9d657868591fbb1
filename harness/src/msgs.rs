//! Symbolic messages and the reference reading of a message, straight from the ROS definition of
//! sensor_msgs/PointCloud2.
use crate::nd;
use crate::pts::*;
use ros_pointcloud2::prelude::*;
use ros_pointcloud2::{CloudDimensions, Denseness, Endian};

/// A message description in terms the oracle understands.
#[derive(Clone)]
pub struct M {
    pub names: Vec<&'static str>,
    pub off: Vec<u32>,
    pub dt: Vec<u8>,
    pub cnt: Vec<u32>,
    pub big: bool,
    pub width: u32,
    pub height: u32,
    pub step: u32,
    pub row_step: u32,
    pub data: Vec<u8>,
    pub dense: bool,
}

impl M {
    pub fn msg(&self) -> PointCloud2Msg {
        PointCloud2Msg {
            header: HeaderMsg::default(),
            dimensions: CloudDimensions { width: self.width, height: self.height },
            fields: (0..self.names.len())
                .map(|i| PointFieldMsg { name: self.names[i].to_string(), offset: self.off[i], datatype: self.dt[i], count: self.cnt[i] })
                .collect(),
            endian: if self.big { Endian::Big } else { Endian::Little },
            point_step: self.step,
            row_step: self.row_step,
            data: self.data.clone(),
            dense: if self.dense { Denseness::Dense } else { Denseness::Sparse },
        }
    }
    /// index of the (first) field of that name
    pub fn find(&self, name: &str) -> Option<usize> {
        (0..self.names.len()).find(|i| self.names[*i] == name)
    }
    /// Value bits of field `f` of point `p` with the size of datatype `code`.
    pub fn value(&self, f: usize, p: usize, code: u8) -> u64 {
        let base = p * self.step as usize + self.off[f] as usize;
        let n = size_of_code(code);
        let mut v = 0u64;
        for i in 0..n {
            let b = self.data[base + i] as u64;
            let pos = if self.big { n - 1 - i } else { i };
            v |= b << (8 * pos);
        }
        v
    }
}

/// Names for fields: the requested ones of T, then unrelated ones.
pub fn pool<const N: usize, T: Pt<N>>() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = T::F.iter().map(|f| f.name).collect();
    v.extend(["other", "", "xx"]);
    v
}

/// A completely unconstrained message: `names` picks the field names (base-(N+2) digits, least
/// significant first), all numbers are arbitrary, the data has `len` arbitrary bytes.
pub fn arbitrary<const N: usize, T: Pt<N>>(nf: u64, names: u64, len: u64) -> M {
    let pool = pool::<N, T>();
    let base = N as u64 + 1;
    let mut k = names;
    let mut m = M {
        names: vec![],
        off: vec![],
        dt: vec![],
        cnt: vec![],
        big: false,
        width: nd::u32_(),
        height: nd::u32_(),
        step: nd::u32_(),
        row_step: nd::u32_(),
        data: vec![],
        dense: nd::bool_(),
    };
    m.big = nd::bool_();
    for _ in 0..nf {
        m.names.push(pool[(k % base) as usize]);
        k /= base;
        m.off.push(nd::u32_());
        m.dt.push(nd::u8_());
        m.cnt.push(nd::u32_());
    }
    m.data = nd::bytes(len as usize);
    m
}

pub fn permutation(n: usize, mut code: u64) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for k in (1..=n).rev() {
        out.push(left.remove((code % k as u64) as usize));
        code /= k as u64;
    }
    out
}

pub const fn fact(n: u64) -> u64 {
    if n < 2 {
        1
    } else {
        n * fact(n - 1)
    }
}
