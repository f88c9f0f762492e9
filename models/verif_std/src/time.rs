//! The model clock: `SystemTime` and `Instant` read the virtual clock of `vx`.
pub use ::std::time::Duration;

fn now() -> Duration { Duration::from_nanos(vx::clock::now_ns()) }

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct SystemTime(Duration);
pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);

#[derive(Debug, Clone)]
pub struct SystemTimeError(Duration);
impl SystemTimeError { pub fn duration(&self) -> Duration { self.0 } }
impl ::std::fmt::Display for SystemTimeError { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.write_str("second time provided was later than self") } }
impl ::std::error::Error for SystemTimeError {}

impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
    pub fn now() -> Self { SystemTime(Duration::from_secs(vx::clock::epoch_secs()) + now()) }
    pub fn duration_since(&self, o: SystemTime) -> Result<Duration, SystemTimeError> {
        self.0.checked_sub(o.0).ok_or_else(|| SystemTimeError(o.0 - self.0))
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> { Self::now().duration_since(*self) }
    pub fn checked_add(&self, d: Duration) -> Option<Self> { self.0.checked_add(d).map(Self) }
    pub fn checked_sub(&self, d: Duration) -> Option<Self> { self.0.checked_sub(d).map(Self) }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Self { Instant(now()) }
    pub fn elapsed(&self) -> Duration { now().saturating_sub(self.0) }
    pub fn duration_since(&self, o: Instant) -> Duration { self.0.saturating_sub(o.0) }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.duration_since(o) }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> { self.0.checked_sub(o.0) }
    pub fn checked_add(&self, d: Duration) -> Option<Self> { self.0.checked_add(d).map(Self) }
    pub fn checked_sub(&self, d: Duration) -> Option<Self> { self.0.checked_sub(d).map(Self) }
}
macro_rules! ops { ($t:ident) => {
    impl ::std::ops::Add<Duration> for $t { type Output = Self; fn add(self, d: Duration) -> Self { $t(self.0 + d) } }
    impl ::std::ops::Sub<Duration> for $t { type Output = Self; fn sub(self, d: Duration) -> Self { $t(self.0 - d) } }
    impl ::std::ops::AddAssign<Duration> for $t { fn add_assign(&mut self, d: Duration) { self.0 += d } }
    impl ::std::ops::SubAssign<Duration> for $t { fn sub_assign(&mut self, d: Duration) { self.0 -= d } }
} }
ops!(SystemTime);
ops!(Instant);
impl ::std::ops::Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.duration_since(o) } }
