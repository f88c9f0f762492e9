//! PEM of the model: the contents are the text itself.
#[derive(Debug)]
pub struct PemError;
impl std::fmt::Display for PemError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("not PEM") } }
impl std::error::Error for PemError {}
pub struct Pem(Vec<u8>);
impl Pem { pub fn contents(&self) -> &[u8] { &self.0 } pub fn into_contents(self) -> Vec<u8> { self.0 } }
pub fn parse<B: AsRef<[u8]>>(b: B) -> Result<Pem, PemError> {
    let t = std::str::from_utf8(b.as_ref()).map_err(|_| PemError)?.trim();
    if t.is_empty() { return Err(PemError); }
    Ok(Pem(t.as_bytes().to_vec()))
}
