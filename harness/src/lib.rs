//! Proof harnesses. Every `entry!` is executed symbolically by /verif/engine on the LLVM IR
//! compiled from this crate and /repo, and natively by bin/replay.rs.
#![allow(static_mut_refs)]
pub mod nd;
#[macro_use]
mod entry;
#[macro_use]
pub mod pts;
mod msgs;
#[macro_use]
mod roundtrip;
mod anymsg;
mod read;
mod names;
mod iterops;
mod written;
#[cfg(feature = "rayon")]
mod par;
mod pdata;
mod rgb;
mod builder;
mod errs;
mod hugeops;
mod cross;
mod layout;
mod uniform;
#[cfg(feature = "exotic")]
mod derived;
#[cfg(feature = "exotic")]
mod pairs;
#[cfg(feature = "nalgebra")]
mod geom;
#[cfg(feature = "serde")]
mod ser;

pub use entry::{Entry, Table};

pub fn tables() -> Vec<&'static [Entry]> {
    #[allow(unused_mut)]
    let mut t = vec![roundtrip::ENTRIES, read::ENTRIES, names::ENTRIES, anymsg::ENTRIES, iterops::ENTRIES, written::ENTRIES, pdata::ENTRIES, rgb::ENTRIES, builder::ENTRIES, errs::ENTRIES, hugeops::ENTRIES, cross::ENTRIES, layout::ENTRIES, uniform::ENTRIES];
    #[cfg(feature = "rayon")]
    t.push(par::ENTRIES);
    #[cfg(feature = "exotic")]
    t.push(derived::ENTRIES);
    #[cfg(feature = "nalgebra")]
    t.push(geom::ENTRIES);
    #[cfg(feature = "serde")]
    t.push(ser::ENTRIES);
    t
}
