#![allow(warnings)]
pub use std::sync::Arc;
pub use std::time::Duration;
/// A harness entry: `vx_entry!(name, { body })`.
#[macro_export]
macro_rules! vx_entry { ($n:ident, $b:block) => { #[no_mangle] pub extern "C" fn $n() $b } }
