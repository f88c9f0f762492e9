//! Serialization traits of the model.
pub use std::io::{Read, Write};
#[derive(Debug)]
pub enum SerializationError { InvalidData, NotEnoughSpace }
impl std::fmt::Display for SerializationError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("invalid data") } }
impl std::error::Error for SerializationError {}
pub trait CanonicalSerialize {
    fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError>;
    fn serialize_compressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.serialize_uncompressed(w) }
}
pub trait CanonicalDeserialize: Sized {
    fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError>;
    fn deserialize_compressed<R: Read>(r: R) -> Result<Self, SerializationError> { Self::deserialize_uncompressed(r) }
}
