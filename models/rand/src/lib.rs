//! Randomness of the model: every entropy draw is an arbitrary value (or comes from the source the
//! harness installs); seeded generators are a fixed function of the seed.
static SRC: vx::Global<Option<fn() -> u64>> = vx::Global::new(None);
/// Replace the symbolic entropy source.
pub fn set_source(f: Option<fn() -> u64>) { *SRC.get() = f }
fn entropy() -> u64 { match *SRC.get() { Some(f) => f(), None => vx::u64() } }
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("rng") } }
impl std::error::Error for Error {}
pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]);
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error>;
}
impl<R: RngCore + ?Sized> RngCore for &mut R {
    fn next_u32(&mut self) -> u32 { (**self).next_u32() }
    fn next_u64(&mut self) -> u64 { (**self).next_u64() }
    fn fill_bytes(&mut self, d: &mut [u8]) { (**self).fill_bytes(d) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Error> { (**self).try_fill_bytes(d) }
}
pub trait CryptoRng {}
impl<R: CryptoRng + ?Sized> CryptoRng for &mut R {}
pub trait SeedableRng: Sized { fn seed_from_u64(s: u64) -> Self; fn from_entropy() -> Self; }
pub trait Sample { fn sample<R: RngCore + ?Sized>(r: &mut R) -> Self; }
macro_rules! smp { ($($t:ty)*) => { $(impl Sample for $t { fn sample<R: RngCore + ?Sized>(r: &mut R) -> Self { r.next_u64() as $t } })* } }
smp!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Sample for bool { fn sample<R: RngCore + ?Sized>(r: &mut R) -> Self { r.next_u32() & 1 == 1 } }
pub trait Rng: RngCore {
    fn gen<T: Sample>(&mut self) -> T { T::sample(self) }
    fn gen_bool(&mut self, _p: f64) -> bool { self.next_u32() & 1 == 1 }
    fn gen_range(&mut self, r: impl RangeOf) -> u64 where Self: Sized { r.pick(self.next_u64()) }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub trait RangeOf { fn pick(&self, v: u64) -> u64; }
impl RangeOf for std::ops::Range<u64> { fn pick(&self, v: u64) -> u64 { vx::assume(v >= self.start && v < self.end); v } }
impl RangeOf for std::ops::RangeInclusive<u64> { fn pick(&self, v: u64) -> u64 { vx::assume(v >= *self.start() && v <= *self.end()); v } }
pub mod rngs {
    #[derive(Clone, Debug)]
    pub struct StdRng(Option<u64>);
    pub type SmallRng = StdRng;
    #[derive(Clone, Debug, Default)]
    pub struct OsRng;
    pub type ThreadRng = OsRng;
    impl super::CryptoRng for StdRng {}
    impl super::CryptoRng for OsRng {}
    impl super::SeedableRng for StdRng { fn seed_from_u64(s: u64) -> Self { Self(Some(s)) } fn from_entropy() -> Self { Self(None) } }
    impl super::RngCore for StdRng {
        fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
        fn next_u64(&mut self) -> u64 { match &mut self.0 { Some(s) => { let v = *s; *s = s.wrapping_add(1); v } None => super::entropy() } }
        fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = self.next_u64() as u8; } }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), super::Error> { self.fill_bytes(d); Ok(()) }
    }
    impl super::RngCore for OsRng {
        fn next_u32(&mut self) -> u32 { super::entropy() as u32 }
        fn next_u64(&mut self) -> u64 { super::entropy() }
        fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = super::entropy() as u8; } }
        fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), super::Error> { self.fill_bytes(d); Ok(()) }
    }
}
pub fn thread_rng() -> rngs::ThreadRng { rngs::OsRng }
pub fn random<T: Sample>() -> T { T::sample(&mut thread_rng()) }
pub mod seq {
    use super::RngCore;
    pub trait SliceRandom {
        type Item;
        fn shuffle<R: RngCore + ?Sized>(&mut self, r: &mut R);
        fn choose<R: RngCore + ?Sized>(&self, r: &mut R) -> Option<&Self::Item>;
    }
    impl<T> SliceRandom for [T] {
        type Item = T;
        /// Any permutation.
        fn shuffle<R: RngCore + ?Sized>(&mut self, _r: &mut R) { for i in (1..self.len()).rev() { let j = vx::choose(i + 1); self.swap(i, j); } }
        fn choose<R: RngCore + ?Sized>(&self, _r: &mut R) -> Option<&T> { if self.is_empty() { None } else { Some(&self[vx::choose(self.len())]) } }
    }
}
