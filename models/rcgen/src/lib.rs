//! Certificate generation of the model (see the model of rustls for what a certificate is).
use rustls_pki_types::CertificateDer;
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("rcgen") } }
impl std::error::Error for Error {}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ia5String(String);
impl TryFrom<&str> for Ia5String { type Error = Error; fn try_from(s: &str) -> Result<Self, Error> { if s.is_ascii() { Ok(Self(s.to_string())) } else { Err(Error) } } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum SanType { DnsName(Ia5String) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum BasicConstraints { Unconstrained, Constrained(u8) }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum IsCa { NoCa, ExplicitNoCa, Ca(BasicConstraints) }
pub struct CertificateParams { issuer: String, pub subject_alt_names: Vec<SanType>, pub is_ca: IsCa }
pub struct KeyPair(String);
pub struct Certificate(CertificateDer<'static>);
impl CertificateParams {
    pub fn from_ca_cert_pem(p: &str) -> Result<Self, Error> { if p.trim().is_empty() { return Err(Error); } Ok(Self { issuer: p.trim().to_string(), subject_alt_names: Vec::new(), is_ca: IsCa::NoCa }) }
    pub fn self_signed(self, _k: &KeyPair) -> Result<Certificate, Error> {
        let mut v = self.issuer.into_bytes();
        v.push(b'|');
        for (i, SanType::DnsName(n)) in self.subject_alt_names.iter().enumerate() { if i > 0 { v.push(b','); } v.extend_from_slice(n.0.as_bytes()); }
        Ok(Certificate(CertificateDer::from(v)))
    }
}
impl KeyPair {
    pub fn from_pem(p: &str) -> Result<Self, Error> { if p.trim().is_empty() { return Err(Error); } Ok(Self(p.to_string())) }
    pub fn serialize_der(&self) -> Vec<u8> { self.0.as_bytes().to_vec() }
}
impl Certificate { pub fn der(&self) -> &CertificateDer<'static> { &self.0 } }
