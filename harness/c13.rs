use sys::*;
use cdn_proto::connection::protocols::{tcp::Tcp, Listener as _, UnfinalizedConnection as _};
use std::cell::Cell;
use tokio::io::AsyncWriteExt;
use tokio::net::TcpStream;
const A: &str = "127.0.0.1:1001";
fn cert() -> (rustls::pki_types::CertificateDer<'static>, rustls::pki_types::PrivateKeyDer<'static>) {
    use cdn_proto::crypto::tls::{generate_cert_from_ca, load_ca};
    let (c, k) = load_ca(None, None).unwrap();
    generate_cert_from_ca(&c, &k).unwrap()
}
const POOL: usize = 8;
/// Can `n` bytes be had right now?
async fn available(l: &Limiter, n: usize) -> bool { tokio::time::timeout(Duration::from_nanos(1), l.allocate_message_bytes(n as u32)).await.is_ok() }
/// A received connection whose other end is raw bytes
struct Link { raw: Option<TcpStream>, c: Option<Connection>, queue: Rc<RefCell<Vec<Bytes>>>, closed: Rc<Cell<bool>>, reader: Arc<vx::rt::Task> }
async fn link(l: &<Tcp as Protocol>::Listener, lim: &Limiter) -> Link {
    let raw = TcpStream::connect(A).await.expect("connect");
    let c = l.accept().await.expect("accept").finalize(lim.clone()).await.expect("finalize");
    let (queue, closed): (Rc<RefCell<Vec<Bytes>>>, Rc<Cell<bool>>) = Default::default();
    let (q, e, d) = (queue.clone(), closed.clone(), c.clone());
    let reader = vx::rt::spawn(async move { while let Ok(m) = d.recv_message_raw().await { q.borrow_mut().push(m); } e.set(true); }, |_| ());
    Link { raw: Some(raw), c: Some(c), queue, closed, reader }
}
impl Link {
    async fn announce(&mut self, n: u32) { if let Some(r) = &mut self.raw { let _ = r.write_all(&n.to_be_bytes()).await; } }
    async fn content(&mut self, m: &[u8]) { if let Some(r) = &mut self.raw { let _ = r.write_all(m).await; } }
    async fn send(&mut self, n: usize) { self.announce(n as u32).await; let m = vx::bytes(n); self.content(&m).await; }
    /// nobody has the connection any more
    fn abandon(&mut self) { self.c = None; self.reader.abort(); }
}
async fn two() -> (Limiter, Link, Link) {
    let lim = Limiter::new(Some(POOL), None);
    let (c, k) = cert();
    let l = Tcp::bind(A, c, k).await.expect("bind");
    let (x, y) = (link(&l, &lim).await, link(&l, &lim).await);
    (lim, x, y)
}
const SIZES: [usize; 5] = [3, 5, 8, 0, 1];
vx_entry!(history, {
    run(async {
        let (lim, mut x, mut y) = two().await;
        // messages received and not dropped yet, with their clones
        let mut live: Vec<Vec<Bytes>> = Vec::new();
        // sizes announced but not received, in order of arrival: (which, size)
        let mut waiting: Vec<(usize, usize)> = Vec::new();
        let mut blocked = [false; 2];
        for _ in 0..deep(4, 5) {
            match vx::choose(5) {
                0 | 1 => {
                    let w = vx::choose(2);
                    let n = SIZES[vx::choose(deep(3, 4))];
                    if [&x, &y][w].closed.get() { return }
                    (if w == 0 { &mut x } else { &mut y }).send(n).await;
                    waiting.push((w, n));
                }
                2 => { if let Some(m) = live.first_mut() { let c = m[0].clone(); m.push(c); vx::cover("cloned"); } else { return } }
                3 => { let Some(m) = live.first_mut() else { return }; m.remove(0); if m.is_empty() { live.remove(0); vx::cover("returned") } }
                _ => { let Some(m) = live.last_mut() else { return }; m.pop(); if m.is_empty() { live.pop(); vx::cover("returned") } }
            }
            settle().await;
            // what arrived
            for (w, l) in [&x, &y].into_iter().enumerate() {
                let arrived = std::mem::take(&mut *l.queue.borrow_mut());
                for m in arrived {
                    let i = waiting.iter().position(|(v, n)| *v == w && *n == m.len()).unwrap_or_else(|| vx::fail("whole-messages-in-order"));
                    vx::check(waiting[..i].iter().all(|(v, _)| *v != w), "whole-messages-in-order");
                    waiting.remove(i);
                    live.push(vec![m]);
                    vx::cover("received");
                }
                blocked[w] = waiting.iter().any(|(v, _)| *v == w);
                vx::check(!l.closed.get(), "stays-connected");
            }
            let used: usize = live.iter().map(|m| m[0].len()).sum();
            vx::check(used <= POOL, "never-more-than-the-pool");
            if waiting.is_empty() {
                vx::check(available(&lim, POOL - used).await, "returned-when-dropped");
                vx::check(!available(&lim, POOL - used + 1).await, "held-until-dropped");
            } else {
                vx::cover("waits");
                // the reader that waited first has priority; it waits for a reason
                vx::check(waiting.iter().any(|(_, n)| used + n > POOL), "waits-only-if-it-must");
            }
        }
        live.clear();
        settle().await;
        let mut rest = 0;
        for _ in 0..6 { for l in [&x, &y] { rest += std::mem::take(&mut *l.queue.borrow_mut()).len(); } settle().await; }
        vx::check(rest == waiting.len(), "continues-when-returned");
        vx::check(available(&lim, POOL).await, "returned-when-dropped");
    });
});
vx_entry!(failures, {
    run(async {
        let (lim, mut x, mut y) = two().await;
        let before = vx::choose(2);
        if before == 1 { x.send(5).await; settle().await; }
        let held: Vec<Bytes> = x.queue.borrow_mut().drain(..).collect();
        // a reader that got (or waits for) its share and never gets the message
        let n = SIZES[vx::choose(3)];
        y.announce(n as u32).await;
        let part = vx::choose(n);
        let some = vx::bytes(part);
        y.content(&some).await;
        settle().await;
        let waits = before == 1 && n > 3;
        match vx::choose(5) {
            0 => { y.raw = None; vx::cover("hung up") }
            1 => { for i in 0..tokio::io::vx_pipes() { tokio::io::vx_cut(i); } vx::cover("broken") }
            2 => { pass(6).await; if !waits { vx::check(y.closed.get(), "gives-up"); } vx::cover("stalled") }
            3 => { y.abandon(); vx::cover("abandoned") }
            _ => { y.abandon(); y.raw = None; }
        }
        settle().await;
        if waits { vx::cover("waited") }
        drop(held);
        settle().await;
        pass(6).await;
        vx::check(available(&lim, POOL).await, "returned-on-failure");
        vx::check(!available(&lim, POOL + 1).await, "returned-once");
    });
});
vx_entry!(undelivered, {
    run(async {
        // received, but the receiver of the connection never takes it
        let lim = Limiter::new(Some(POOL), [None, Some(1)][vx::choose(2)]);
        let (c, k) = cert();
        let l = Tcp::bind(A, c, k).await.expect("bind");
        let mut x = link(&l, &lim).await;
        if vx::choose(2) == 1 { x.reader.abort(); settle().await; }
        for _ in 0..1 + vx::choose(3) { x.send(SIZES[vx::choose(3)]).await; }
        settle().await;
        let in_queue = std::mem::take(&mut *x.queue.borrow_mut());
        match vx::choose(3) { 0 => { x.abandon(); } 1 => { x.raw = None; settle().await; x.abandon(); } _ => { x.abandon(); x.raw = None; } }
        settle().await;
        let used: usize = in_queue.iter().map(|m| m.len()).sum();
        vx::check(used <= POOL, "never-more-than-the-pool");
        vx::check(available(&lim, POOL - used).await, "returned-on-failure");
        drop(in_queue);
        settle().await;
        vx::check(available(&lim, POOL).await && !available(&lim, POOL + 1).await, "returned-once");
        vx::cover("end");
    });
});
/// A message takes its whole size from the pool before it is taken off the network, and no more.
vx_entry!(sizes, {
    run(async {
        let pool = 50000usize;
        let n = [1, 17, 255, 256, 4097, 20000, 40000, 50000][vx::choose(8)];
        let lim = Limiter::new(Some(pool), None);
        let (c, k) = cert();
        let l = Tcp::bind(A, c, k).await.expect("bind");
        let mut x = link(&l, &lim).await;
        // one byte less is left than it needs
        let taken = lim.allocate_message_bytes((pool - n + 1) as u32).await;
        let mut raw = x.raw.take().unwrap();
        let sent: Rc<Cell<bool>> = Default::default();
        let s = sent.clone();
        let writer = vx::rt::spawn(async move { let _ = raw.write_all(&(n as u32).to_be_bytes()).await; let _ = raw.write_all(&vec![5; n]).await; s.set(true); std::future::pending::<()>().await; }, |_| ());
        settle().await;
        vx::check(x.queue.borrow().is_empty(), "not-without-its-share");
        if n >= 20000 { vx::check(!sent.get(), "not-taken-off-the-network-without-its-share"); vx::cover("held back"); }
        drop(taken);
        settle().await;
        vx::check(x.queue.borrow().len() == 1 && x.queue.borrow()[0].len() == n && !x.closed.get(), "received-once-there-is-room");
        vx::check(available(&lim, pool - n).await || n == pool, "takes-no-more-than-its-size");
        vx::check(!available(&lim, pool - n + 1).await, "takes-its-size");
        x.queue.borrow_mut().clear();
        vx::check(available(&lim, pool).await, "returned");
        writer.abort();
        vx::cover("end");
    });
});
vx_entry!(too_large, {
    run(async {
        // a message that can never fit does not block those that do
        let (lim, mut x, mut y) = two().await;
        let size = vx::u32();
        vx::assume(size > POOL as u32);
        x.announce(size).await;
        settle().await;
        y.send(3).await;
        settle().await;
        pass(6).await;
        vx::check(y.queue.borrow().len() == 1, "others-continue");
        y.queue.borrow_mut().clear();
        vx::check(x.closed.get(), "refused");
        vx::check(available(&lim, POOL).await, "returned-on-failure");
        vx::cover("end");
    });
});
/// a real broker with a small pool: nothing it forwards, drops or fails to deliver keeps its share
vx_entry!(through_a_broker, {
    run(async {
        concrete_entropy();
        let b: Broker<D> = Broker::new(Config {
            public_advertise_endpoint: "u0".to_string(), public_bind_endpoint: "u0".to_string(), private_advertise_endpoint: "b0".to_string(), private_bind_endpoint: "b0".to_string(),
            metrics_bind_endpoint: None, discovery_endpoint: DB.to_string(), keypair: key(7), ca_cert_path: None, ca_key_path: None,
            global_memory_pool_size: Some(300), user_message_hook: NoMessageHook, broker_message_hook: NoMessageHook,
        }).await.expect("broker");
        tokio::spawn(async move { let _ = b.start().await; });
        settle().await;
        let a = join(0, &uk(1), &[0]).await.unwrap();
        let mut other = join(0, &uk(2), &[0]).await;
        let p = peer(0, 5).await;
        p.send(user_sync(5, &[uk(6)])).await;
        settle().await;
        let big = |to: u8| Message::Direct(Direct { recipient: uk(to), message: vec![9; 100] });
        for _ in 0..deep(4, 6) {
            match vx::choose(4) {
                0 => { a.send(big([2u8, 3, 6][vx::choose(3)])).await; }
                1 => { a.send(Message::Broadcast(Broadcast { topics: vec![vx::choose(2) as u8], message: vec![9; 100] })).await; vx::cover("broadcast") }
                2 => { if let Some(o) = other.take() { a.send(big(2)).await; o.leave(); vx::cover("left") } else { other = join(0, &uk(2), &[0]).await; vx::check(other.is_some(), "still-serves") } }
                _ => { a.send(big(2)).await; a.send(big(6)).await; a.send(big(2)).await; p.send(big(1)).await; p.send(big(3)).await; vx::cover("burst") }
            }
            settle().await;
        }
        for c in [&a, &p] { c.take(); }
        for _ in 0..3 { a.send(big(1)).await; }
        settle().await;
        vx::check(payloads(a.take()).len() == 3, "never-leaks");
        p.send(big(1)).await;
        settle().await;
        vx::check(payloads(a.take()).len() == 1, "never-leaks");
        vx::cover("end");
    });
});
