//! Stand-in for rosrust: its time type.
#[derive(Copy, Clone, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Time {
    pub sec: u32,
    pub nsec: u32,
}
impl Time {
    pub fn new() -> Time {
        Self::default()
    }
    pub fn from_nanos(t: i64) -> Time {
        Time { sec: (t / 1_000_000_000) as u32, nsec: (t % 1_000_000_000) as u32 }
    }
    pub fn nanos(self) -> i64 {
        i64::from(self.sec) * 1_000_000_000 + i64::from(self.nsec)
    }
    pub fn seconds(self) -> f64 {
        f64::from(self.sec) + f64::from(self.nsec) / 1e9
    }
}
