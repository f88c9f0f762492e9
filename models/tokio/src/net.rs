//! Loopback TCP of the model: listeners by port, connections are in-memory duplex pipes.
use std::collections::VecDeque;
use std::io::{Error, ErrorKind, Result};
use std::net::{SocketAddr, ToSocketAddrs};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use super::pipe::DuplexStream;
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf, ReadHalf, WriteHalf};

struct Lst { addr: SocketAddr, q: VecDeque<TcpStream>, w: Option<Waker>, open: bool }
static NET: vx::Global<Vec<Lst>> = vx::Global::new(Vec::new());

static FAIL: vx::Global<(bool, u16, u32)> = vx::Global::new((false, 0, 0));
/// The process ran out of file descriptors: no connection can be accepted until further notice.
pub fn vx_no_files(on: bool) { FAIL.get().0 = on; FAIL.get().2 = 0; if !on { for l in NET.get().iter_mut() { if let Some(w) = l.w.take() { w.wake() } } } }
/// The next connection to `port` was aborted by the peer when it is to be accepted.
pub fn vx_abort_next(port: u16) { FAIL.get().1 = port }

pub struct TcpStream { s: DuplexStream, peer: SocketAddr }
impl std::fmt::Debug for TcpStream { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("TcpStream") } }
impl TcpStream {
    pub async fn connect(addr: impl ToSocketAddrs) -> Result<Self> {
        let a = addr.to_socket_addrs()?.next().ok_or_else(|| Error::from(ErrorKind::InvalidInput))?;
        connect(a)
    }
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) { let (r, w) = tokio_real::io::split(self.s); (tcp::OwnedReadHalf(r), tcp::OwnedWriteHalf(w)) }
    pub fn set_nodelay(&self, _b: bool) -> Result<()> { Ok(()) }
    pub fn peer_addr(&self) -> Result<SocketAddr> { Ok(self.peer) }
    pub fn local_addr(&self) -> Result<SocketAddr> { Ok(self.peer) }
}
fn connect(a: SocketAddr) -> Result<TcpStream> {
    let Some(l) = NET.get().iter_mut().find(|l| l.open && l.addr.port() == a.port()) else { return Err(Error::from(ErrorKind::ConnectionRefused)) };
    let (x, y) = super::pipe::duplex(8192);
    l.q.push_back(TcpStream { s: y, peer: a });
    if let Some(w) = l.w.take() { w.wake(); }
    Ok(TcpStream { s: x, peer: a })
}
impl AsyncRead for TcpStream { fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<Result<()>> { Pin::new(&mut self.s).poll_read(cx, b) } }
impl AsyncWrite for TcpStream {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> { Pin::new(&mut self.s).poll_write(cx, b) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> { Pin::new(&mut self.s).poll_flush(cx) }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> { Pin::new(&mut self.s).poll_shutdown(cx) }
}
pub mod tcp {
    use super::*;
    pub struct OwnedReadHalf(pub(super) ReadHalf<DuplexStream>);
    pub struct OwnedWriteHalf(pub(super) WriteHalf<DuplexStream>);
    impl AsyncRead for OwnedReadHalf { fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<Result<()>> { Pin::new(&mut self.0).poll_read(cx, b) } }
    impl AsyncWrite for OwnedWriteHalf {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> { Pin::new(&mut self.0).poll_write(cx, b) }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> { Pin::new(&mut self.0).poll_flush(cx) }
        fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> { Pin::new(&mut self.0).poll_shutdown(cx) }
    }
}
pub struct TcpSocket;
impl TcpSocket {
    pub fn new_v4() -> Result<Self> { Ok(Self) }
    pub fn new_v6() -> Result<Self> { Ok(Self) }
    pub fn set_nodelay(&self, _b: bool) -> Result<()> { Ok(()) }
    pub fn set_keepalive(&self, _b: bool) -> Result<()> { Ok(()) }
    pub fn set_reuseaddr(&self, _b: bool) -> Result<()> { Ok(()) }
    pub async fn connect(self, a: SocketAddr) -> Result<TcpStream> { connect(a) }
}
#[derive(Debug)]
pub struct TcpListener(SocketAddr);
impl TcpListener {
    pub async fn bind(addr: impl ToSocketAddrs) -> Result<Self> {
        let a = addr.to_socket_addrs()?.next().ok_or_else(|| Error::from(ErrorKind::InvalidInput))?;
        if NET.get().iter().any(|l| l.open && l.addr.port() == a.port()) { return Err(Error::from(ErrorKind::AddrInUse)); }
        NET.get().push(Lst { addr: a, q: VecDeque::new(), w: None, open: true });
        Ok(Self(a))
    }
    pub async fn accept(&self) -> Result<(TcpStream, SocketAddr)> {
        let port = self.0.port();
        std::future::poll_fn(move |cx| {
            let l = NET.get().iter_mut().find(|l| l.open && l.addr.port() == port).expect("listener");
            if FAIL.get().0 && !l.q.is_empty() {
                FAIL.get().2 += 1;
                if FAIL.get().2 > 200 { vx::fail("spins-while-it-cannot-accept") }
                return Poll::Ready(Err(Error::from_raw_os_error(24)));
            }
            if FAIL.get().1 == port && !l.q.is_empty() { FAIL.get().1 = 0; l.q.pop_front(); return Poll::Ready(Err(Error::from(ErrorKind::ConnectionAborted))); }
            if let Some(s) = l.q.pop_front() { let p = s.peer; return Poll::Ready(Ok((s, p))); }
            l.w = Some(cx.waker().clone());
            Poll::Pending
        }).await
    }
    pub fn local_addr(&self) -> Result<SocketAddr> { Ok(self.0) }
}
impl Drop for TcpListener { fn drop(&mut self) { let p = self.0.port(); if let Some(l) = NET.get().iter_mut().find(|l| l.open && l.addr.port() == p) { l.open = false; l.q.clear(); } } }
