//! TLS configuration of the model. A certificate is the text "<issuer PEM>|<names>"; it is trusted
//! by exactly the stores that hold its issuer, for exactly the names it lists.
use std::sync::Arc;
pub use rustls_pki_types as pki_types;
use pki_types::{CertificateDer, PrivateKeyDer};
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("tls") } }
impl std::error::Error for Error {}
#[derive(Clone, Debug, Default)]
pub struct RootCertStore { pub roots: Vec<Vec<u8>> }
impl RootCertStore {
    pub fn empty() -> Self { Self::default() }
    pub fn add(&mut self, c: CertificateDer<'_>) -> Result<(), Error> { self.roots.push(c.as_ref().to_vec()); Ok(()) }
    pub fn trusts(&self, cert: &[u8], name: &str) -> bool {
        let Some(i) = cert.iter().position(|b| *b == b'|') else { return false };
        self.roots.iter().any(|r| r.as_slice() == &cert[..i]) && cert[i + 1..].split(|b| *b == b',').any(|n| n == name.as_bytes())
    }
}
#[derive(Clone, Debug)]
pub struct ClientConfig { pub roots: RootCertStore }
#[derive(Clone, Debug)]
pub struct ServerConfig { pub cert: Vec<u8> }
pub struct B1; pub struct B2(RootCertStore); pub struct B3;
pub struct S1;
impl ClientConfig { pub fn builder() -> B1 { B1 } }
impl B1 { pub fn with_root_certificates(self, r: impl Into<Arc<RootCertStore>>) -> B2 { B2((*r.into()).clone()) } }
impl B2 { pub fn with_no_client_auth(self) -> ClientConfig { ClientConfig { roots: self.0 } } }
impl ServerConfig { pub fn builder() -> S1 { S1 } }
impl S1 { pub fn with_no_client_auth(self) -> B3 { B3 } }
impl B3 { pub fn with_single_cert(self, c: Vec<CertificateDer<'static>>, _k: PrivateKeyDer<'static>) -> Result<ServerConfig, Error> { Ok(ServerConfig { cert: c.first().ok_or(Error)?.as_ref().to_vec() }) } }
