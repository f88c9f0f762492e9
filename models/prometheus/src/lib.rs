//! Metrics of the model: plain counters.
use std::cell::Cell;
use std::sync::Arc;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("metric") } }
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
#[derive(Clone, Debug, Default)]
pub struct Gauge(Arc<Cell<f64>>);
unsafe impl Send for Gauge {}
unsafe impl Sync for Gauge {}
impl Gauge {
    pub fn new(_n: &str, _h: &str) -> Result<Self> { Ok(Self::default()) }
    pub fn set(&self, v: f64) { self.0.set(v) }
    pub fn get(&self) -> f64 { self.0.get() }
    pub fn add(&self, v: f64) { self.0.set(self.0.get() + v) }
    pub fn sub(&self, v: f64) { self.0.set(self.0.get() - v) }
    pub fn inc(&self) { self.add(1.0) }
    pub fn dec(&self) { self.sub(1.0) }
}
#[derive(Clone, Debug, Default)]
pub struct IntGauge(Arc<Cell<i64>>);
unsafe impl Send for IntGauge {}
unsafe impl Sync for IntGauge {}
impl IntGauge {
    pub fn new(_n: &str, _h: &str) -> Result<Self> { Ok(Self::default()) }
    pub fn set(&self, v: i64) { self.0.set(v) }
    pub fn get(&self) -> i64 { self.0.get() }
    pub fn add(&self, v: i64) { self.0.set(self.0.get() + v) }
    pub fn sub(&self, v: i64) { self.0.set(self.0.get() - v) }
    pub fn inc(&self) { self.add(1) }
    pub fn dec(&self) { self.sub(1) }
}
#[derive(Clone, Debug, Default)]
pub struct Histogram(Arc<Cell<(f64, u64)>>);
unsafe impl Send for Histogram {}
unsafe impl Sync for Histogram {}
impl Histogram {
    pub fn new(_n: &str, _h: &str) -> Result<Self> { Ok(Self::default()) }
    pub fn observe(&self, v: f64) { let (s, c) = self.0.get(); self.0.set((s + v, c + 1)) }
    pub fn get_sample_sum(&self) -> f64 { self.0.get().0 }
    pub fn get_sample_count(&self) -> u64 { self.0.get().1 }
}
#[macro_export] macro_rules! register_gauge { ($n:expr, $h:expr $(,)?) => { $crate::Gauge::new($n, $h) } }
#[macro_export] macro_rules! register_int_gauge { ($n:expr, $h:expr $(,)?) => { $crate::IntGauge::new($n, $h) } }
#[macro_export] macro_rules! register_histogram { ($n:expr, $h:expr $(,)?) => { $crate::Histogram::new($n, $h) } }
pub struct TextEncoder;
impl TextEncoder { pub fn new() -> Self { Self } pub fn encode_to_string(&self, _m: &[()]) -> Result<String> { Ok(String::new()) } }
pub fn gather() -> Vec<()> { Vec::new() }
