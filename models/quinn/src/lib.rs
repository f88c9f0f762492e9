//! QUIC of the model: endpoints by port, one ordered byte pipe per stream direction. A stream is
//! announced to the peer by its first byte. When the last handle of one side goes away the
//! connection closes: the peer loses what it has not read yet unless it had been acknowledged.
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use rustls::RootCertStore;
use std::collections::VecDeque;
use std::future::{Future, IntoFuture};
use std::io::{Error as IoError, ErrorKind, Result as IoResult};
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

macro_rules! err { ($($n:ident)*) => { $(
    #[derive(Debug, Clone, PartialEq, Eq)] pub struct $n;
    impl std::fmt::Display for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(stringify!($n)) } }
    impl std::error::Error for $n {}
)* } }
err!(ConnectionError ConnectError ClosedStream StoppedError ConfigError);

#[derive(Clone, Copy, Debug)] pub struct VarInt(pub u64);
impl VarInt { pub const fn from_u32(v: u32) -> Self { Self(v as u64) } }
impl From<u32> for VarInt { fn from(v: u32) -> Self { Self(u64::from(v)) } }
#[derive(Clone, Debug)]
pub struct TransportConfig { bidi: u64 }
impl Default for TransportConfig { fn default() -> Self { Self { bidi: 100 } } }
impl TransportConfig {
    pub fn keep_alive_interval(&mut self, _d: Option<Duration>) -> &mut Self { self }
    pub fn max_concurrent_bidi_streams(&mut self, v: VarInt) -> &mut Self { self.bidi = v.0; self }
    pub fn max_concurrent_uni_streams(&mut self, _v: VarInt) -> &mut Self { self }
    pub fn max_idle_timeout(&mut self, _v: Option<VarInt>) -> &mut Self { self }
}
#[derive(Clone)]
pub struct ClientConfig { roots: Arc<RootCertStore>, t: Arc<TransportConfig> }
impl ClientConfig {
    pub fn with_root_certificates(r: Arc<RootCertStore>) -> Result<Self, ConfigError> { Ok(Self { roots: r, t: Arc::new(TransportConfig::default()) }) }
    pub fn transport_config(&mut self, t: Arc<TransportConfig>) -> &mut Self { self.t = t; self }
}
#[derive(Clone)]
pub struct ServerConfig { cert: Vec<u8>, t: Arc<TransportConfig> }
impl ServerConfig {
    pub fn with_single_cert(c: Vec<CertificateDer<'static>>, _k: PrivateKeyDer<'static>) -> Result<Self, ConfigError> { Ok(Self { cert: c.first().ok_or(ConfigError)?.as_ref().to_vec(), t: Arc::new(TransportConfig::default()) }) }
    pub fn transport_config(&mut self, t: Arc<TransportConfig>) -> &mut Self { self.t = t; self }
}

#[derive(Default)]
struct Pipe { q: VecDeque<u8>, fin: bool, lost: bool, rw: Option<Waker>, sw: Option<Waker>, sent: bool, cap_w: Option<Waker> }
const CAP: usize = 65536;
#[derive(Default)]
struct Stream { dir: [Pipe; 2], accepted: bool }
struct Conn { up: bool, dead: [bool; 2], refs: [usize; 2], streams: Vec<Stream>, aw: [Option<Waker>; 2], limit: u64 }
struct Lst { port: u16, cfg: ServerConfig, q: VecDeque<Incoming>, w: Option<Waker>, refs: usize }
static CONNS: vx::Global<Vec<Conn>> = vx::Global::new(Vec::new());
static LSTS: vx::Global<Vec<Lst>> = vx::Global::new(Vec::new());
fn wake(w: &mut Option<Waker>) { if let Some(w) = w.take() { w.wake(); } }

/// A counted handle of one side of a connection.
struct Side { c: usize, s: usize }
impl Side {
    fn new(c: usize, s: usize) -> Self { CONNS.get()[c].refs[s] += 1; Self { c, s } }
    fn conn(&self) -> &'static mut Conn { &mut CONNS.get()[self.c] }
    fn closed(&self) -> bool { let c = self.conn(); c.dead[0] || c.dead[1] }
}
impl Clone for Side { fn clone(&self) -> Self { Self::new(self.c, self.s) } }
impl Drop for Side {
    fn drop(&mut self) {
        let c = self.conn();
        c.refs[self.s] -= 1;
        if c.refs[self.s] == 0 {
            c.dead[self.s] = true;
            for s in &mut c.streams { for p in &mut s.dir { p.lost = true; p.q.clear(); wake(&mut p.rw); wake(&mut p.sw); wake(&mut p.cap_w); } }
            for w in &mut c.aw { wake(w); }
        }
    }
}

pub struct Endpoint { lst: Option<u16>, cc: Option<ClientConfig> }
impl Endpoint {
    pub fn client(_a: SocketAddr) -> IoResult<Self> { Ok(Self { lst: None, cc: None }) }
    pub fn server(cfg: ServerConfig, a: SocketAddr) -> IoResult<Self> {
        if LSTS.get().iter().any(|l| l.refs > 0 && l.port == a.port()) { return Err(IoError::from(ErrorKind::AddrInUse)); }
        LSTS.get().push(Lst { port: a.port(), cfg, q: VecDeque::new(), w: None, refs: 1 });
        Ok(Self { lst: Some(a.port()), cc: None })
    }
    pub fn set_default_client_config(&mut self, c: ClientConfig) { self.cc = Some(c) }
    pub fn connect(&self, a: SocketAddr, name: &str) -> Result<Connecting, ConnectError> {
        let cc = self.cc.clone().ok_or(ConnectError)?;
        let i = CONNS.get().len();
        CONNS.get().push(Conn { up: false, dead: [false; 2], refs: [0; 2], streams: Vec::new(), aw: [None, None], limit: 100 });
        let side = Side::new(i, 0);
        if let Some(l) = LSTS.get().iter_mut().find(|l| l.refs > 0 && l.port == a.port()) {
            if cc.roots.trusts(&l.cfg.cert, name) {
                CONNS.get()[i].limit = l.cfg.t.bidi;
                l.q.push_back(Incoming(Side::new(i, 1)));
                wake(&mut l.w);
            } else { CONNS.get()[i].dead[1] = true; }
        }
        Ok(Connecting(Some(side)))
    }
    pub async fn accept(&self) -> Option<Incoming> {
        let port = self.lst?;
        std::future::poll_fn(move |cx| {
            let Some(l) = LSTS.get().iter_mut().find(|l| l.refs > 0 && l.port == port) else { return Poll::Ready(None) };
            if let Some(i) = l.q.pop_front() { return Poll::Ready(Some(i)); }
            l.w = Some(cx.waker().clone());
            Poll::Pending
        }).await
    }
}
impl Drop for Endpoint { fn drop(&mut self) { if let Some(p) = self.lst { if let Some(l) = LSTS.get().iter_mut().find(|l| l.refs > 0 && l.port == p) { l.refs = 0; let q = std::mem::take(&mut l.q); drop(q); } } } }

pub struct Incoming(Side);
impl IntoFuture for Incoming {
    type Output = Result<Connection, ConnectionError>;
    type IntoFuture = Connecting;
    fn into_future(self) -> Connecting {
        let c = self.0.conn();
        c.up = true;
        wake(&mut c.aw[0]);
        Connecting(Some(self.0))
    }
}
pub struct Connecting(Option<Side>);
impl Future for Connecting {
    type Output = Result<Connection, ConnectionError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let s = self.0.take().expect("polled after completion");
        if s.closed() { return Poll::Ready(Err(ConnectionError)); }
        if s.conn().up { return Poll::Ready(Ok(Connection(s))); }
        s.conn().aw[s.s] = Some(cx.waker().clone());
        self.0 = Some(s);
        Poll::Pending
    }
}
#[derive(Clone)]
pub struct Connection(Side);
impl Connection {
    pub async fn open_bi(&self) -> Result<(SendStream, RecvStream), ConnectionError> {
        let c = self.0.conn();
        if self.0.closed() { return Err(ConnectionError); }
        if c.streams.len() as u64 >= c.limit { std::future::pending::<()>().await; }
        c.streams.push(Stream::default());
        let i = c.streams.len() - 1;
        Ok((SendStream { c: self.0.clone(), i, fin: false }, RecvStream { c: self.0.clone(), i }))
    }
    pub async fn accept_bi(&self) -> Result<(SendStream, RecvStream), ConnectionError> {
        std::future::poll_fn(|cx| {
            if self.0.closed() { return Poll::Ready(Err(ConnectionError)); }
            let me = self.0.s;
            let c = self.0.conn();
            for (i, s) in c.streams.iter_mut().enumerate() {
                if !s.accepted && s.dir[1 - me].sent {
                    s.accepted = true;
                    return Poll::Ready(Ok((SendStream { c: self.0.clone(), i, fin: false }, RecvStream { c: self.0.clone(), i })));
                }
            }
            c.aw[me] = Some(cx.waker().clone());
            Poll::Pending
        }).await
    }
    pub fn close(&self, _c: VarInt, _r: &[u8]) { let c = self.0.conn(); c.dead[self.0.s] = true; for s in &mut c.streams { for p in &mut s.dir { p.lost = true; p.q.clear(); wake(&mut p.rw); wake(&mut p.sw); } } }
}
pub struct SendStream { c: Side, i: usize, fin: bool }
pub struct RecvStream { c: Side, i: usize }
impl SendStream {
    fn pipe(&self) -> &'static mut Pipe { &mut self.c.conn().streams[self.i].dir[self.c.s] }
    pub fn finish(&mut self) -> Result<(), ClosedStream> {
        if self.fin { return Err(ClosedStream); }
        self.fin = true;
        let p = self.pipe();
        p.fin = true;
        p.sent = true;
        wake(&mut p.rw);
        Ok(())
    }
    /// Resolves when the peer has everything (or the connection is gone).
    pub async fn stopped(&mut self) -> Result<Option<VarInt>, StoppedError> {
        std::future::poll_fn(|cx| {
            let p = self.pipe();
            if p.fin && p.q.is_empty() { return Poll::Ready(Ok(None)); }
            if p.lost { return Poll::Ready(Err(StoppedError)); }
            p.sw = Some(cx.waker().clone());
            Poll::Pending
        }).await
    }
}
impl Drop for SendStream { fn drop(&mut self) { let _ = self.finish(); } }
impl AsyncWrite for SendStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<IoResult<usize>> {
        let p = self.pipe();
        if p.lost || self.fin || self.c.closed() { return Poll::Ready(Err(IoError::from(ErrorKind::NotConnected))); }
        let n = b.len().min(CAP - p.q.len());
        if n == 0 && !b.is_empty() { p.cap_w = Some(cx.waker().clone()); return Poll::Pending; }
        p.q.extend(&b[..n]);
        p.sent = true;
        wake(&mut p.rw);
        let me = self.c.s;
        wake(&mut self.c.conn().aw[1 - me]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<IoResult<()>> { Poll::Ready(Ok(())) }
    fn poll_shutdown(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<IoResult<()>> { let _ = self.finish(); Poll::Ready(Ok(())) }
}
impl AsyncRead for RecvStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<IoResult<()>> {
        let p = &mut self.c.conn().streams[self.i].dir[1 - self.c.s];
        if p.q.is_empty() {
            if p.lost { return Poll::Ready(Err(IoError::from(ErrorKind::NotConnected))); }
            if p.fin { return Poll::Ready(Ok(())); }
            p.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        while b.remaining() > 0 { match p.q.pop_front() { Some(x) => b.put_slice(&[x]), None => break } }
        if p.q.is_empty() { wake(&mut p.sw); }
        wake(&mut p.cap_w);
        Poll::Ready(Ok(()))
    }
}
