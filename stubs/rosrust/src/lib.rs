//! The time type of the rosrust crate, which cannot be built here.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Time { pub sec: u32, pub nsec: u32 }
