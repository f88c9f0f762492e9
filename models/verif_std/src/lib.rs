//! Shadows `std` in the generated crates: everything is std's, except hash collections and the
//! clock, which are models.
#![allow(clippy::all)]
pub use ::std::*;
pub mod collections;
pub mod time;
