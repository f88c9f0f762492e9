//! Unused ports of the model: the next number.
use std::sync::atomic::{AtomicU16, Ordering};
static NEXT: AtomicU16 = AtomicU16::new(20000);
pub fn pick_unused_port() -> Option<u16> { Some(NEXT.fetch_add(1, Ordering::SeqCst)) }
