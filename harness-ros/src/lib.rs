//! Harnesses for the ROS message conversions (C18, C24). One library per build.
#[path = "../../harness/src/nd.rs"]
pub mod nd;
#[path = "../../harness/src/entry.rs"]
#[macro_use]
mod entry;
mod ros;

pub use entry::{Entry, Table};

pub fn tables() -> Vec<&'static [Entry]> {
    vec![ros::ENTRIES]
}
