//! Virtual clock shared by the time models (nanoseconds since the harness start).
use crate::Global;
static NOW: Global<u64> = Global::new(0);
/// Wall-clock seconds at virtual time zero.
static EPOCH: Global<u64> = Global::new(1_700_000_000);
pub fn now_ns() -> u64 { *NOW.get() }
pub fn set_ns(n: u64) { *NOW.get() = n }
pub fn epoch_secs() -> u64 { *EPOCH.get() }
pub fn set_epoch_secs(s: u64) { *EPOCH.get() = s }
