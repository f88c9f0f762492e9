use sys::*;
use cdn_proto::connection::protocols::{tcp::Tcp, Listener as _, UnfinalizedConnection as _};
use std::cell::Cell;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
const A: &str = "127.0.0.1:1001";
const R: &str = "127.0.0.1:1002";
fn cert() -> (rustls::pki_types::CertificateDer<'static>, rustls::pki_types::PrivateKeyDer<'static>) {
    use cdn_proto::crypto::tls::{generate_cert_from_ca, load_ca};
    let (c, k) = load_ca(None, None).unwrap();
    generate_cert_from_ca(&c, &k).unwrap()
}
async fn bind(at: &str) -> <Tcp as Protocol>::Listener { let (c, k) = cert(); Tcp::bind(at, c, k).await.expect("bind") }
async fn accept(l: &<Tcp as Protocol>::Listener, lim: Limiter) -> Connection { l.accept().await.expect("accept").finalize(lim).await.expect("finalize") }
fn raw(n: usize) -> Bytes { Bytes::from_unchecked(vx::bytes(n)) }
/// Two real connections, the bytes from one to the other passing through the harness, `seen` at a time.
struct Relay { to: Connection, from: Connection, up: RefCell<TcpStream>, down: RefCell<TcpStream>, held: RefCell<Vec<u8>> }
impl Relay {
    async fn new(lim: Limiter) -> Self {
        let (a, r) = (bind(A).await, tokio::net::TcpListener::bind(R).await.expect("bind"));
        let from = Tcp::connect(R, true, Limiter::none()).await.expect("connect");
        let (up, _) = r.accept().await.expect("accept");
        let down = TcpStream::connect(A).await.expect("connect");
        let to = accept(&a, lim).await;
        Relay { to, from, up: RefCell::new(up), down: RefCell::new(down), held: Default::default() }
    }
    /// everything the sender has put on the wire so far
    async fn fetch(&self) -> usize {
        settle().await;
        let mut b = [0u8; 64];
        while let Ok(Ok(n)) = tokio::time::timeout(Duration::from_millis(1), self.up.borrow_mut().read(&mut b)).await { if n == 0 { break } self.held.borrow_mut().extend_from_slice(&b[..n]); }
        self.held.borrow().len()
    }
    async fn pass_on(&self, n: usize) {
        let piece: Vec<u8> = self.held.borrow_mut().drain(..n).collect();
        let _ = self.down.borrow_mut().write_all(&piece).await;
        settle().await;
    }
}
/// what comes out of a connection
fn reader(c: &Connection) -> (Rc<RefCell<Vec<Bytes>>>, Rc<Cell<bool>>) {
    let (got, end): (Rc<RefCell<Vec<Bytes>>>, Rc<Cell<bool>>) = Default::default();
    let (g, e, c) = (got.clone(), end.clone(), c.clone());
    vx::rt::spawn(async move { while let Ok(m) = c.recv_message_raw().await { g.borrow_mut().push(m); } e.set(true); }, |_| ());
    (got, end)
}
fn prefix_of(got: &[Bytes], sent: &[Bytes]) -> bool { got.len() <= sent.len() && got.iter().zip(sent).fold(true, |r, (a, b)| r & beq(a, b)) }
async fn send_some(r: &Relay, k: usize) -> (Vec<Bytes>, Vec<usize>) {
    let (mut sent, mut ends) = (Vec::new(), Vec::new());
    for _ in 0..k {
        let m = raw([0usize, 1, 3, 6][vx::choose(deep(3, 4))]);
        vx::check(r.from.send_message_raw(m.clone()).await.is_ok(), "sent");
        sent.push(m);
        ends.push(r.fetch().await);
    }
    (sent, ends)
}
vx_entry!(pieces, {
    run(async {
        let r = Relay::new(Limiter::none()).await;
        let (got, end) = reader(&r.to);
        let (sent, ends) = send_some(&r, deep(2, 3)).await;
        let mut left = *ends.last().unwrap();
        let mut passed = 0;
        for _ in 0..3 {
            let n = vx::choose(left + 1);
            r.pass_on(n).await;
            left -= n; passed += n;
            let whole = ends.iter().filter(|e| **e <= passed).count();
            vx::check(got.borrow().len() == whole, "as-soon-as-it-is-whole");
        }
        r.pass_on(left).await;
        vx::check(got.borrow().len() == sent.len() && prefix_of(&got.borrow(), &sent), "same-bytes");
        vx::check(!end.get(), "stays-open");
        vx::cover("end");
    });
});
vx_entry!(cut, {
    run(async {
        let r = Relay::new(Limiter::none()).await;
        let (got, end) = reader(&r.to);
        let (sent, ends) = send_some(&r, 2).await;
        let n = vx::choose(ends[1] + 1);
        let m = vx::choose(n + 1).min(1) * (n / 2);
        r.pass_on(m).await; r.pass_on(n - m).await;
        let whole = ends.iter().filter(|e| **e <= n).count();
        match vx::choose(2) {
            0 => { let _ = r.down.borrow_mut().shutdown().await; vx::cover("end of stream") }
            _ => { for i in 0..tokio::io::vx_pipes() { tokio::io::vx_cut(i); } vx::cover("broken") }
        }
        settle().await;
        vx::check(got.borrow().len() == whole && prefix_of(&got.borrow(), &sent), "never-a-partial-message");
        vx::check(end.get(), "then-an-error");
    });
});
vx_entry!(stalled, {
    run(async {
        let r = Relay::new(Limiter::none()).await;
        let (got, end) = reader(&r.to);
        let (sent, ends) = send_some(&r, 2).await;
        let n = vx::choose(ends[1] + 1);
        r.pass_on(n).await;
        let whole = ends.iter().filter(|e| **e <= n).count();
        let start = if whole == 0 { 0 } else { ends[whole - 1] };
        let in_content = n >= start + 4 && whole < 2;
        let secs = [3u64, 6][vx::choose(2)];
        pass(secs).await;
        vx::check(got.borrow().len() == whole, "never-a-partial-message");
        if in_content && secs == 6 { vx::check(end.get(), "gives-up"); vx::cover("gave up"); return; }
        vx::check(!end.get(), "patient");
        r.pass_on(ends[1] - n).await;
        vx::check(got.borrow().len() == 2 && prefix_of(&got.borrow(), &sent), "same-bytes");
        vx::cover("went on");
    });
});
const MAX: u32 = u32::MAX / 8;
vx_entry!(announced_size, {
    run(async {
        // all but 16 bytes of the memory for messages are taken
        let lim = Limiter::new(Some((1 << 30) + 16), None);
        let _taken = (lim.allocate_message_bytes(1 << 29).await, lim.allocate_message_bytes(1 << 29).await);
        let a = bind(A).await;
        let mut s = TcpStream::connect(A).await.expect("connect");
        let c = accept(&a, lim.clone()).await;
        let (got, end) = reader(&c);
        let size = vx::u32();
        let kind = vx::choose(3);
        let small = kind == 0;
        vx::assume(match kind { 0 => size <= 3, 1 => size > MAX, _ => size > 1 << 28 && size <= MAX });
        let _ = s.write_all(&size.to_be_bytes()).await;
        settle().await;
        if small {
            let n = vx::choose(4);
            vx::assume(n as u32 == size);
            let m = vx::bytes(n);
            let _ = s.write_all(&m).await;
            settle().await;
            vx::check(got.borrow().len() == 1 && beq(&got.borrow()[0], &m) && !end.get(), "same-bytes");
            vx::cover("small");
        } else if kind == 2 {
            // it may be sent: it waits for the memory it needs
            pass(11).await;
            vx::check(!end.get() && got.borrow().is_empty(), "largest-may-be-sent");
            vx::cover("large");
        } else {
            vx::check(end.get() && got.borrow().is_empty(), "refused-at-once");
            vx::cover("refused");
        }
    });
});
vx_entry!(wire, {
    run(async {
        // what is sent is the length in four bytes and the content
        let r = tokio::net::TcpListener::bind(R).await.expect("bind");
        let from = Tcp::connect(R, true, Limiter::none()).await.expect("connect");
        let (mut up, _) = r.accept().await.expect("accept");
        let m = raw(vx::choose(deep(6, 12)));
        vx::check(from.send_message_raw(m.clone()).await.is_ok(), "sent");
        let n = up.read_u32().await;
        vx::check(n.is_ok_and(|n| n as usize == m.len()), "length-first");
        let mut b = vec![0; m.len()];
        vx::check(up.read_exact(&mut b).await.is_ok() && beq(&b, &m), "same-bytes");
        vx::cover("end");
    });
});
vx_entry!(slow_reader, {
    run(async {
        // a peer that does not read: the sender gives up and says so, in bounded time
        let r = tokio::net::TcpListener::bind(R).await.expect("bind");
        let from = Tcp::connect(R, true, Limiter::none()).await.expect("connect");
        let (mut up, _) = r.accept().await.expect("accept");
        let (_, end) = reader(&from);
        let big = Bytes::from_unchecked(vec![7; [8188usize, 8189, 8192, 9000][vx::choose(4)]]);
        vx::check(from.send_message_raw(big.clone()).await.is_ok(), "sent");
        if vx::choose(2) == 0 { let _ = from.send_message_raw(raw(1)).await; }
        settle().await;
        let wait = [3u64, 6, 12][vx::choose(3)];
        pass(wait).await;
        let after = from.send_message_raw(raw(1)).await;
        // whatever is read then is whole messages in order
        let mut b = vec![0u8; 5];
        vx::check(up.read_exact(&mut b).await.is_ok() && b[4] == 7, "same-bytes");
        if wait == 3 { vx::check(after.is_ok(), "patient"); vx::cover("patient"); }
        let stuck = big.len() + 4 > 8192 || wait == 12;
        if after.is_err() { vx::check(stuck || wait >= 6, "gives-up-only-when-stuck"); vx::cover("gave up") }
        if big.len() >= 8192 && wait > 3 { vx::check(after.is_err(), "gives-up"); }
        let _ = end;
    });
});
