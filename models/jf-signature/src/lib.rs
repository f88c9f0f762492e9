//! Ideal signatures: a signature verifies only if `sign` produced it with the matching key over
//! exactly that message. Keys and signatures are two bytes on the wire, the first a fixed tag
//! (other tags are "not a curve point"); as with arkworks, trailing bytes are not looked at.
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Read, SerializationError, Write};
use rand::{CryptoRng, RngCore};

#[derive(Debug)]
pub enum SignatureError { VerificationError(String) }
impl std::fmt::Display for SignatureError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("signature error") } }
impl std::error::Error for SignatureError {}

pub trait SignatureScheme: Clone + Send + Sync + 'static {
    type SigningKey;
    type VerificationKey;
    type PublicParameter;
    type Signature;
    fn key_gen<R: CryptoRng + RngCore>(pp: &Self::PublicParameter, prng: &mut R) -> Result<(Self::SigningKey, Self::VerificationKey), SignatureError>;
    fn sign<R: CryptoRng + RngCore, M: AsRef<[u8]>>(pp: &Self::PublicParameter, sk: &Self::SigningKey, msg: M, prng: &mut R) -> Result<Self::Signature, SignatureError>;
    fn verify<M: AsRef<[u8]>>(pp: &Self::PublicParameter, vk: &Self::VerificationKey, msg: M, sig: &Self::Signature) -> Result<(), SignatureError>;
}

pub mod bls_over_bn254 {
    use super::*;
    pub const KEY_TAG: u8 = 0x4B;
    pub const SIG_TAG: u8 = 0x53;
    static ISSUED: vx::Global<Vec<(u8, Vec<u8>)>> = vx::Global::new(Vec::new());

    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
    pub struct VerKey(pub u8);
    #[derive(Clone, PartialEq, Eq, Debug)]
    pub struct SignKey(pub u8);
    #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
    pub struct Signature(pub u8);
    #[derive(Clone)]
    pub struct BLSOverBN254CurveSignatureScheme;

    fn put<W: Write>(mut w: W, t: u8, v: u8) -> Result<(), SerializationError> { w.write_all(&[t, v]).map_err(|_| SerializationError::NotEnoughSpace) }
    fn get<R: Read>(mut r: R, t: u8) -> Result<u8, SerializationError> {
        let mut b = [0u8; 2];
        r.read_exact(&mut b).map_err(|_| SerializationError::NotEnoughSpace)?;
        if b[0] != t { return Err(SerializationError::InvalidData); }
        Ok(b[1])
    }
    impl CanonicalSerialize for VerKey { fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { put(w, KEY_TAG, self.0) } }
    impl CanonicalDeserialize for VerKey { fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> { get(r, KEY_TAG).map(Self) } }
    impl CanonicalSerialize for Signature { fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> { put(w, SIG_TAG, self.0) } }
    impl CanonicalDeserialize for Signature { fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> { get(r, SIG_TAG).map(Self) } }
    impl SignKey { pub fn to_ver_key(&self) -> VerKey { VerKey(self.0) } }
    impl From<&SignKey> for VerKey { fn from(s: &SignKey) -> Self { VerKey(s.0) } }

    impl SignatureScheme for BLSOverBN254CurveSignatureScheme {
        type SigningKey = SignKey;
        type VerificationKey = VerKey;
        type PublicParameter = ();
        type Signature = Signature;
        fn key_gen<R: CryptoRng + RngCore>(_pp: &(), prng: &mut R) -> Result<(SignKey, VerKey), SignatureError> {
            let k = prng.next_u64() as u8;
            Ok((SignKey(k), VerKey(k)))
        }
        fn sign<R: CryptoRng + RngCore, M: AsRef<[u8]>>(_pp: &(), sk: &SignKey, msg: M, _prng: &mut R) -> Result<Signature, SignatureError> {
            let i = ISSUED.get().len() as u8;
            ISSUED.get().push((sk.0, msg.as_ref().to_vec()));
            Ok(Signature(i))
        }
        fn verify<M: AsRef<[u8]>>(_pp: &(), vk: &VerKey, msg: M, sig: &Signature) -> Result<(), SignatureError> {
            for (i, (k, m)) in ISSUED.get().iter().enumerate() {
                if sig.0 == i as u8 {
                    if *k == vk.0 && m.as_slice() == msg.as_ref() { return Ok(()); }
                    break;
                }
            }
            Err(SignatureError::VerificationError(String::new()))
        }
    }
}
