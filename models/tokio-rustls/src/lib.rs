//! TLS handshake of the model: the client asks, the server presents its certificate, the client
//! accepts or hangs up; the record layer is the underlying stream.
pub use rustls;
use rustls::{pki_types::ServerName, ClientConfig, ServerConfig};
use std::io::{Error, ErrorKind, Result};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};
/// What is written is only certain to be sent once it is flushed: the model holds it back until then.
pub struct TlsStream<S>(S, Vec<u8>);
impl<S> TlsStream<S> { pub fn get_ref(&self) -> &S { &self.0 } }
pub mod client { pub use super::TlsStream; }
pub mod server { pub use super::TlsStream; }
const RECORDS: usize = 65536;
impl<S: AsyncWrite + Unpin> TlsStream<S> {
    fn send(&mut self, cx: &mut Context<'_>) -> Poll<Result<()>> {
        while !self.1.is_empty() {
            match Pin::new(&mut self.0).poll_write(cx, &self.1) {
                Poll::Ready(Ok(n)) => { if n == 0 { return Poll::Ready(Err(Error::from(ErrorKind::WriteZero))); } self.1.drain(..n); }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            }
        }
        Poll::Ready(Ok(()))
    }
}
impl<S: AsyncRead + Unpin> AsyncRead for TlsStream<S> { fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<Result<()>> { Pin::new(&mut self.0).poll_read(cx, b) } }
impl<S: AsyncWrite + Unpin> AsyncWrite for TlsStream<S> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        if self.1.len() >= RECORDS { match self.send(cx) { Poll::Ready(Ok(())) => {} Poll::Ready(Err(e)) => return Poll::Ready(Err(e)), Poll::Pending => return Poll::Pending } }
        self.1.extend_from_slice(b);
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> { match self.send(cx) { Poll::Ready(Ok(())) => Pin::new(&mut self.0).poll_flush(cx), r => r } }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> { match self.send(cx) { Poll::Ready(Ok(())) => Pin::new(&mut self.0).poll_shutdown(cx), r => r } }
}
#[derive(Clone)] pub struct TlsConnector(Arc<ClientConfig>);
#[derive(Clone)] pub struct TlsAcceptor(Arc<ServerConfig>);
impl From<Arc<ClientConfig>> for TlsConnector { fn from(c: Arc<ClientConfig>) -> Self { Self(c) } }
impl From<Arc<ServerConfig>> for TlsAcceptor { fn from(c: Arc<ServerConfig>) -> Self { Self(c) } }
impl TlsConnector {
    pub async fn connect<S: AsyncRead + AsyncWrite + Unpin>(&self, name: ServerName<'static>, mut s: S) -> Result<TlsStream<S>> {
        s.write_all(&[0x16]).await?;
        let n = s.read_u16().await?;
        let mut c = vec![0u8; usize::from(n)];
        s.read_exact(&mut c).await?;
        let ServerName::DnsName(d) = &name else { return Err(Error::from(ErrorKind::InvalidInput)) };
        if !self.0.roots.trusts(&c, d.as_ref()) { return Err(Error::from(ErrorKind::InvalidData)); }
        s.write_all(&[0x17]).await?;
        Ok(TlsStream(s, Vec::new()))
    }
}
impl TlsAcceptor {
    pub async fn accept<S: AsyncRead + AsyncWrite + Unpin>(&self, mut s: S) -> Result<TlsStream<S>> {
        if s.read_u8().await? != 0x16 { return Err(Error::from(ErrorKind::InvalidData)); }
        s.write_u16(self.0.cert.len() as u16).await?;
        s.write_all(&self.0.cert).await?;
        if s.read_u8().await? != 0x17 { return Err(Error::from(ErrorKind::InvalidData)); }
        Ok(TlsStream(s, Vec::new()))
    }
}
