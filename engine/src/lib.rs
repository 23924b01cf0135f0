//! Contracts over the real crate and the driver that discharges them.
pub mod base;
pub mod driver;
pub mod quiet;
