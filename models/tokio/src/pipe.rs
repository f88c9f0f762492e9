//! In-memory pipes that a harness can cut: what was not read yet is lost, reads end, writes fail.
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tokio_real::io::{AsyncRead, AsyncWrite, ReadBuf};
struct Link { cut: bool, wakers: Vec<Waker> }
static LINKS: vx::Global<Vec<Arc<vx::Global<Link>>>> = vx::Global::new(Vec::new());
/// how many pipes were ever made
pub fn vx_pipes() -> usize { LINKS.get().len() }
/// cut pipe `i`
pub fn vx_cut(i: usize) { let l = LINKS.get()[i].get(); l.cut = true; for w in std::mem::take(&mut l.wakers) { w.wake(); } }

pub struct DuplexStream { s: tokio_real::io::DuplexStream, l: Arc<vx::Global<Link>> }
impl std::fmt::Debug for DuplexStream { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("DuplexStream") } }
pub fn duplex(n: usize) -> (DuplexStream, DuplexStream) {
    let (a, b) = tokio_real::io::duplex(n);
    let l = Arc::new(vx::Global::new(Link { cut: false, wakers: Vec::new() }));
    LINKS.get().push(l.clone());
    (DuplexStream { s: a, l: l.clone() }, DuplexStream { s: b, l })
}
fn remember(l: &vx::Global<Link>, cx: &Context<'_>) { let l = l.get(); if !l.wakers.iter().any(|w| w.will_wake(cx.waker())) { l.wakers.push(cx.waker().clone()); } }
impl AsyncRead for DuplexStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        if self.l.get().cut { return Poll::Ready(Ok(())); }
        let r = Pin::new(&mut self.s).poll_read(cx, b);
        if r.is_pending() { remember(&self.l, cx); }
        r
    }
}
impl AsyncWrite for DuplexStream {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
        if self.l.get().cut { return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into())); }
        let r = Pin::new(&mut self.s).poll_write(cx, b);
        if r.is_pending() { remember(&self.l, cx); }
        r
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        if self.l.get().cut { return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into())); }
        Pin::new(&mut self.s).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut self.s).poll_shutdown(cx) }
}
