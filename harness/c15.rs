use sys::*;
use cdn_proto::connection::protocols::{quic::Quic, tcp::Tcp, tcp_tls::TcpTls, Listener, UnfinalizedConnection};
use std::cell::Cell;
const A: &str = "127.0.0.1:1001";
fn cert() -> (rustls::pki_types::CertificateDer<'static>, rustls::pki_types::PrivateKeyDer<'static>) {
    use cdn_proto::crypto::tls::{generate_cert_from_ca, load_ca};
    let (c, k) = load_ca(None, None).unwrap();
    generate_cert_from_ca(&c, &k).unwrap()
}
async fn bind<P: Protocol>() -> P::Listener { let (c, k) = cert(); P::bind(A, c, k).await.map_err(|e| vx::note(&format!("{e}"), 0)).ok().unwrap_or_else(|| vx::fail("binds")) }
fn limiter(k: usize) -> Limiter { if k == 0 { Limiter::none() } else { Limiter::new(None, Some(k)) } }
/// two ends of one connection
async fn pair<P: Protocol>(lx: Limiter, ly: Limiter) -> (Connection, Connection) where P::Listener: 'static {
    let l = Rc::new(bind::<P>().await);
    let l2 = l.clone();
    let y = call(async move { let u = l2.accept().await.ok()?; u.finalize(ly).await.ok() });
    let x = P::connect(A, true, lx).await.map_err(|e| vx::note(&format!("{e}"), 0)).ok().unwrap_or_else(|| vx::fail("connects"));
    settle().await;
    let y = y.borrow_mut().take().flatten().unwrap_or_else(|| vx::fail("accepts"));
    drop(l);
    (x, y)
}
fn call<T: 'static, F: std::future::Future<Output = T> + 'static>(f: F) -> Rc<RefCell<Option<T>>> {
    let out: Rc<RefCell<Option<T>>> = Default::default();
    let o = out.clone();
    vx::rt::spawn(async move { let r = f.await; *o.borrow_mut() = Some(r); }, |_| ());
    out
}
struct Reader { got: Rc<RefCell<Vec<Bytes>>>, end: Rc<Cell<bool>>, task: Arc<vx::rt::Task> }
fn reader(c: &Connection) -> Reader {
    let (got, end): (Rc<RefCell<Vec<Bytes>>>, Rc<Cell<bool>>) = Default::default();
    let (g, e, c) = (got.clone(), end.clone(), c.clone());
    let task = vx::rt::spawn(async move { while let Ok(m) = c.recv_message_raw().await { g.borrow_mut().push(m); } e.set(true); }, |_| ());
    Reader { got, end, task }
}
fn raw(n: usize) -> Bytes { Bytes::from_unchecked(vx::bytes(n)) }
fn prefix_of(got: &[Bytes], sent: &[Bytes]) -> bool { got.len() <= sent.len() && got.iter().zip(sent).fold(true, |r, (a, b)| r & beq(a, b)) }
fn same(got: &[Bytes], sent: &[Bytes]) -> bool { got.len() == sent.len() && prefix_of(got, sent) }
/// both directions, several senders' messages, any schedule
async fn fifo<P: Protocol>() where P::Listener: 'static {
    let k = vx::choose(3);
    let (x, y) = pair::<P>(limiter(k), limiter(k)).await;
    let (rx, ry) = (reader(&x), reader(&y));
    races(deep(1, 2));
    let (mut sx, mut sy) = (Vec::new(), Vec::new());
    for _ in 0..3 { sx.push(raw([1usize, 0, 2][vx::choose(2)])); sy.push(raw(1)); }
    let (x2, y2, a, b) = (x.clone(), y.clone(), sx.clone(), sy.clone());
    let p = call(async move { let mut ok = true; for m in a { ok &= x2.send_message_raw(m).await.is_ok(); } ok });
    let q = call(async move { let mut ok = true; for m in b { ok &= y2.send_message_raw(m).await.is_ok(); } ok });
    settle().await;
    races(0);
    settle().await;
    vx::check(*p.borrow() == Some(true) && *q.borrow() == Some(true), "sent");
    vx::check(same(&ry.got.borrow(), &sx) && same(&rx.got.borrow(), &sy), "complete-once-in-order");
    vx::check(!rx.end.get() && !ry.end.get(), "stays-open");
    // what one side drops, the other gets to know
    let rest = raw(1);
    vx::check(x.send_message_raw(rest.clone()).await.is_ok(), "sent");
    settle().await;
    sx.push(rest);
    rx.task.abort();
    drop(x);
    settle().await;
    vx::check(same(&ry.got.borrow(), &sx), "complete-once-in-order");
    vx::check(ry.end.get(), "then-an-error");
    vx::cover("end");
}
/// messages, a soft close, and the end of the sender
async fn closing<P: Protocol>() where P::Listener: 'static {
    let k = vx::choose(2);
    let (x, y) = pair::<P>(limiter(k), limiter(k)).await;
    let late = vx::choose(2) == 1;
    let mut ry = if late { None } else { Some(reader(&y)) };
    races(deep(1, 2));
    let sent: Vec<Bytes> = (0..vx::choose(3)).map(|_| raw(1)).collect();
    let (s, x2) = (sent.clone(), x.clone());
    drop(x);
    let done = call(async move {
        for m in s { if x2.send_message_raw(m).await.is_err() { return false; } }
        x2.soft_close().await.is_ok()
    });
    settle().await;
    races(0);
    pass(4).await;
    if late { ry = Some(reader(&y)); pass(4).await; }
    let ry = ry.unwrap();
    vx::check(done.borrow().is_some(), "nothing-hangs");
    if *done.borrow() == Some(true) { vx::check(late || same(&ry.got.borrow(), &sent), "flushed-messages-arrive"); vx::cover("flushed") }
    vx::check(prefix_of(&ry.got.borrow(), &sent), "complete-once-in-order");
    vx::check(ry.end.get(), "then-an-error");
}
/// either side goes away at any point of the other's activity
async fn endings<P: Protocol>() where P::Listener: 'static {
    let k = vx::choose(3);
    let (x, y) = pair::<P>(limiter(k), limiter(k)).await;
    let rx = reader(&x);
    let mut ry = Some(reader(&y));
    if vx::choose(2) == 1 { ry.take().unwrap().task.abort(); settle().await; }
    let sent: Vec<Bytes> = (0..3).map(|_| raw(1)).collect();
    races(deep(1, 2));
    let (x2, s) = (x.clone(), sent.clone());
    let sending = call(async move { for m in s { x2.send_message_raw(m).await?; } cdn_proto::error::Result::Ok(()) });
    let x3 = x.clone();
    let closing = vx::choose(2) == 1;
    let flush = if closing { Some(call(async move { x3.soft_close().await })) } else { None };
    if vx::choose(2) == 1 { settle().await; }
    let got = ry.as_ref().map(|r| r.got.clone());
    // the peer goes away, or the network does
    match vx::choose(2) {
        0 => { if let Some(r) = ry { r.task.abort(); } drop(y); vx::cover("gone") }
        _ => { if k == 2 { return } ; for i in 0..tokio::io::vx_pipes() { tokio::io::vx_cut(i); } if tokio::io::vx_pipes() == 0 { if let Some(r) = ry { r.task.abort(); } drop(y); } vx::cover("cut") }
    }
    settle().await;
    races(0);
    pass(11).await;
    if let Some(g) = got { vx::check(prefix_of(&g.borrow(), &sent), "complete-once-in-order"); }
    vx::check(rx.end.get(), "receivers-get-an-error");
    for _ in 0..2 { let x4 = x.clone(); let c = call(async move { x4.send_message_raw(raw(1)).await }); pass(6).await; vx::check(c.borrow().is_some(), "nothing-hangs"); }
    let x4 = x.clone();
    let last = call(async move { x4.send_message_raw(raw(1)).await });
    pass(6).await;
    vx::check(matches!(&*last.borrow(), Some(Err(_))), "senders-get-an-error");
    vx::check(sending.borrow().is_some(), "nothing-hangs");
    if let Some(f) = flush { vx::check(f.borrow().is_some(), "soft-close-returns"); vx::cover("flushing") }
    let x5 = x.clone();
    let f = call(async move { x5.soft_close().await });
    pass(6).await;
    vx::check(matches!(&*f.borrow(), Some(Err(_))), "senders-get-an-error");
}
/// nobody listens, or nobody answers
async fn unreachable<P: Protocol>() where P::Listener: 'static {
    let l = if vx::choose(2) == 1 { Some(bind::<P>().await) } else { None };
    let k = vx::choose(2);
    if k == 1 { if let Some(l) = &l { let _ = tokio::time::timeout(Duration::from_secs(1), l.accept()).await; } }
    let c = call(P::connect(A, true, Limiter::none()));
    pass(13).await;
    if l.is_none() { vx::check(matches!(&*c.borrow(), Some(Err(_))), "unreachable-is-an-error"); vx::cover("nobody") } else { vx::cover("no answer") }
    drop(l);
    settle().await;
    pass(1).await;
    if c.borrow().is_none() { vx::fail("nothing-hangs") }
    let made = c.borrow_mut().take();
    if let Some(Ok(c)) = made {
        let r = reader(&c);
        pass(30).await;
        vx::check(r.end.get(), "receivers-get-an-error");
    }
}
/// two connections made at once are not mixed up
async fn at_once<P: Protocol>() where P::Listener: 'static {
    let l = Rc::new(bind::<P>().await);
    races(deep(2, 3));
    let ys: Rc<RefCell<Vec<Connection>>> = Default::default();
    let (l2, ys2) = (l.clone(), ys.clone());
    vx::rt::spawn(async move { while let Ok(u) = l2.accept().await { if let Ok(c) = u.finalize(Limiter::none()).await { ys2.borrow_mut().push(c); } } }, |_| ());
    let xs: Vec<_> = (0..2).map(|_| call(P::connect(A, true, Limiter::none()))).collect();
    settle().await;
    races(0);
    settle().await;
    vx::check(ys.borrow().len() == 2, "accepts");
    let xs: Vec<Connection> = xs.iter().map(|x| x.borrow_mut().take().and_then(Result::ok).unwrap_or_else(|| vx::fail("connects"))).collect();
    for (i, x) in xs.iter().enumerate() { vx::check(x.send_message_raw(Bytes::from_unchecked(vec![i as u8])).await.is_ok(), "sent"); }
    settle().await;
    let (rx, ry): (Vec<Reader>, Vec<Reader>) = (xs.iter().map(reader).collect(), ys.borrow().iter().map(reader).collect());
    settle().await;
    for (y, r) in ys.borrow().iter().zip(&ry) {
        vx::check(r.got.borrow().len() == 1, "complete-once-in-order");
        let m = r.got.borrow()[0].clone();
        vx::check(y.send_message_raw(m).await.is_ok(), "sent");
    }
    settle().await;
    for (i, r) in rx.iter().enumerate() { vx::check(r.got.borrow().len() == 1 && beq(&r.got.borrow()[0], &[i as u8]), "connections-are-not-mixed-up"); }
    vx::cover("end");
}
vx_entry!(fifo_memory, { run(fifo::<Memory>()); });
vx_entry!(fifo_tcp, { run(fifo::<Tcp>()); });
vx_entry!(fifo_tls, { run(fifo::<TcpTls>()); });
vx_entry!(fifo_quic, { run(fifo::<Quic>()); });
vx_entry!(closing_memory, { run(closing::<Memory>()); });
vx_entry!(closing_tcp, { run(closing::<Tcp>()); });
vx_entry!(closing_tls, { run(closing::<TcpTls>()); });
vx_entry!(closing_quic, { run(closing::<Quic>()); });
vx_entry!(endings_memory, { run(endings::<Memory>()); });
vx_entry!(endings_tcp, { run(endings::<Tcp>()); });
vx_entry!(endings_tls, { run(endings::<TcpTls>()); });
vx_entry!(endings_quic, { run(endings::<Quic>()); });
vx_entry!(unreachable_memory, { run(unreachable::<Memory>()); });
vx_entry!(unreachable_tcp, { run(unreachable::<Tcp>()); });
vx_entry!(unreachable_tls, { run(unreachable::<TcpTls>()); });
vx_entry!(unreachable_quic, { run(unreachable::<Quic>()); });
vx_entry!(at_once_memory, { run(at_once::<Memory>()); });
vx_entry!(at_once_tcp, { run(at_once::<Tcp>()); });
vx_entry!(at_once_tls, { run(at_once::<TcpTls>()); });
vx_entry!(at_once_quic, { run(at_once::<Quic>()); });
