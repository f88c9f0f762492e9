//! Archives of the model: an archive is a fresh handle standing for a copy of the value
//! (lossless by construction); bytes that are no handle of the requested type do not decode.
pub use rkyv_derive::{Archive, Deserialize, Serialize};
use std::any::Any;
static REG: vx::Global<Vec<Box<dyn Any>>> = vx::Global::new(Vec::new());
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("invalid archive") } }
impl std::error::Error for Error {}
pub struct AlignedVec(Vec<u8>);
impl AlignedVec { pub fn into_vec(self) -> Vec<u8> { self.0 } }
impl std::ops::Deref for AlignedVec { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for AlignedVec { fn as_ref(&self) -> &[u8] { &self.0 } }
pub fn to_bytes<T: Clone + 'static, const N: usize>(v: &T) -> Result<AlignedVec, Error> {
    let i = REG.get().len() as u16;
    REG.get().push(Box::new(v.clone()));
    let b = i.to_le_bytes();
    Ok(AlignedVec(vec![0xA7, b[0], b[1], 0x7A]))
}
pub fn from_bytes<T: Clone + 'static>(b: &[u8]) -> Result<T, Error> {
    if b.len() != 4 || b[0] != 0xA7 || b[3] != 0x7A { return Err(Error); }
    let i = usize::from(u16::from_le_bytes([b[1], b[2]]));
    for (j, v) in REG.get().iter().enumerate() {
        if i == j { return v.downcast_ref::<T>().cloned().ok_or(Error); }
    }
    Err(Error)
}
