use sys::*;
use cdn_marshal::{Config as MConfig, Marshal};
use cdn_proto::connection::auth::{broker::BrokerAuth, user::UserAuth};
use cdn_proto::connection::protocols::{tcp::Tcp, tcp_tls::TcpTls};
use cdn_proto::discovery::BrokerIdentifier as Id;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;
const BP: &str = "127.0.0.1:1001";
const UP: &str = "127.0.0.1:1002";
const MP: &str = "127.0.0.1:1003";
const PEER: &str = "127.0.0.1:1011";
fn me() -> Id { Id { public_advertise_endpoint: UP.into(), private_advertise_endpoint: BP.into() } }
fn other() -> Id { Id { public_advertise_endpoint: "127.0.0.1:1012".into(), private_advertise_endpoint: PEER.into() } }
/// a real broker over real protocols
async fn serve<B: Protocol, U: Protocol>(pool: Option<usize>) where B::Listener: 'static, U::Listener: 'static {
    let b = Broker::<TestingRunDef<B, U>>::new(Config {
        public_advertise_endpoint: UP.into(), public_bind_endpoint: UP.into(), private_advertise_endpoint: BP.into(), private_bind_endpoint: BP.into(),
        metrics_bind_endpoint: None, discovery_endpoint: DB.to_string(), keypair: key(7), ca_cert_path: None, ca_key_path: None,
        global_memory_pool_size: pool, user_message_hook: NoMessageHook, broker_message_hook: NoMessageHook,
    }).await.expect("broker");
    tokio::spawn(async move { if b.start().await.is_err() { vx::fail("the-broker-stopped") } });
    settle().await;
}
async fn marshal<U: Protocol>() where U::Listener: 'static {
    let m = Marshal::<TestingRunDef<Memory, U>>::new(MConfig { bind_endpoint: MP.into(), discovery_endpoint: DB.to_string(), ca_cert_path: None, ca_key_path: None, metrics_bind_endpoint: None, global_memory_pool_size: None }).await.expect("marshal");
    tokio::spawn(async move { if m.start().await.is_err() { vx::fail("the-marshal-stopped") } });
    settle().await;
}
/// what came of it without time passing
async fn at_once<T: 'static>(f: impl std::future::Future<Output = T> + 'static) -> Option<T> {
    let out: Rc<RefCell<Option<T>>> = Default::default();
    let o = out.clone();
    vx::rt::spawn(async move { let r = f.await; *o.borrow_mut() = Some(r); }, |_| ());
    settle().await;
    let r = out.borrow_mut().take();
    r
}
async fn user<U: Protocol>(k: u8) -> Option<Inbox> {
    let mut d = disc().await;
    let permit = d.issue_permit(&me(), Duration::from_secs(30), uk(k)).await.expect("permit");
    let conn = U::connect(UP, true, Limiter::none()).await.ok()?;
    UserAuth::<TestingConnection<U>>::authenticate_with_broker(&conn, permit, [1].into_iter().collect()).await.ok()?;
    Some(Inbox::new(conn))
}
async fn fellow<B: Protocol, U: Protocol>() -> Option<Inbox> {
    let conn = B::connect(BP, true, Limiter::none()).await.ok()?;
    BrokerAuth::<TestingRunDef<B, U>>::authenticate_with_broker(&conn, &key(7)).await.ok()?;
    BrokerAuth::<TestingRunDef<B, U>>::verify_broker(&conn, &other(), &key(7).public_key).await.ok()?;
    Some(Inbox::new(conn))
}
async fn permit<U: Protocol>(seed: u64) -> Option<(String, u64)> {
    let conn = U::connect(MP, true, Limiter::none()).await.ok()?;
    UserAuth::<TestingConnection<U>>::authenticate_with_marshal(&conn, &key(seed)).await.ok()
}
/// a connection its maker does nothing (more) with; whether the server let go of it
fn idle(mut s: TcpStream) -> Rc<RefCell<bool>> {
    let gone: Rc<RefCell<bool>> = Default::default();
    let g = gone.clone();
    vx::rt::spawn(async move { let mut b = [0u8; 64]; while !matches!(s.read(&mut b).await, Ok(0) | Err(_)) {} *g.borrow_mut() = true; }, |_| ());
    gone
}
/// somebody connects and says nothing, says something, or goes away again
async fn nuisance(port: &str, waiting: &mut Vec<Rc<RefCell<bool>>>) {
    let Some(mut s) = TcpStream::connect(port).await.ok() else { vx::fail("connects") };
    match vx::choose(4) {
        0 => { vx::cover("silent"); waiting.push(idle(s)) }
        1 => { vx::cover("gone") }
        2 => { let _ = s.write_all(&vx::bytes(3)).await; vx::cover("talks"); waiting.push(idle(s)) }
        _ => { let _ = s.write_all(&[0x16, 0, 0, 0, 2, 7, vx::u8()]).await; settle().await; vx::cover("begins"); waiting.push(idle(s)) }
    }
    if vx::choose(2) == 1 { settle().await }
}
/// a broker serves users and brokers while others waste their connections
async fn nuisances<B: Protocol, U: Protocol>() where B::Listener: 'static, U::Listener: 'static {
    concrete_entropy();
    serve::<B, U>(None).await;
    let a = user::<U>(1).await.unwrap_or_else(|| vx::fail("served-at-once"));
    let mut waiting = vec![];
    for _ in 0..deep(2, 3) { nuisance([BP, UP][vx::choose(2)], &mut waiting).await; }
    let b = at_once(user::<U>(2)).await.flatten().unwrap_or_else(|| vx::fail("served-at-once"));
    let f = at_once(fellow::<B, U>()).await.flatten().unwrap_or_else(|| vx::fail("linked-at-once"));
    pass(1).await;
    for x in [&a, &b, &f] { x.take(); }
    vx::check(a.send(Message::Broadcast(Broadcast { topics: vec![1], message: vx::bytes(1) })).await, "sent");
    settle().await;
    vx::check(payloads(a.take()).len() == 1 && payloads(b.take()).len() == 1, "delivered-at-once");
    vx::check(f.send(Message::Direct(Direct { recipient: uk(2), message: vx::bytes(1) })).await, "sent");
    settle().await;
    vx::check(payloads(b.take()).len() == 1, "delivered-at-once");
    pass(16).await;
    for w in &waiting { vx::check(*w.borrow(), "unfinished-connections-are-dropped"); }
    for x in [&a, &b, &f] { vx::check(!x.is_closed(), "others-stay"); }
    vx::cover("end");
}
async fn marshal_nuisances<U: Protocol>() where U::Listener: 'static {
    concrete_entropy();
    marshal::<U>().await;
    let mut d = Embedded::new(DB.to_string(), Some(me())).await.unwrap();
    d.perform_heartbeat(0, Duration::from_secs(60)).await.unwrap();
    let mut waiting = vec![];
    for _ in 0..deep(2, 3) { nuisance(MP, &mut waiting).await; }
    let p = at_once(permit::<U>(1)).await.flatten().unwrap_or_else(|| vx::fail("served-at-once"));
    vx::check(p.0 == UP && p.1 > 1, "a-permit");
    pass(16).await;
    for w in &waiting { vx::check(*w.borrow(), "unfinished-connections-are-dropped"); }
    vx::check(at_once(permit::<U>(2)).await.flatten().is_some(), "served-at-once");
    vx::cover("end");
}
/// A connection can't be accepted: aborted by its maker, or for want of file descriptors for a while.
async fn accept_fails<B: Protocol, U: Protocol>() where B::Listener: 'static, U::Listener: 'static {
    concrete_entropy();
    serve::<B, U>(None).await;
    let a = user::<U>(1).await.unwrap_or_else(|| vx::fail("served-at-once"));
    for _ in 0..deep(1, 2) {
        let (port, n) = [(BP, 1001u16), (UP, 1002)][vx::choose(2)];
        if vx::choose(2) == 0 {
            tokio::net::vx_abort_next(n);
            drop(TcpStream::connect(port).await);
            settle().await;
            vx::cover("aborted");
        } else {
            tokio::net::vx_no_files(true);
            let c = TcpStream::connect(port).await;
            if vx::choose(2) == 1 { drop(c) } else { idle(c.unwrap()); }
            pass(1 + 2 * vx::choose(2) as u64).await;
            tokio::net::vx_no_files(false);
            vx::cover("no files");
        }
    }
    pass(2).await;
    vx::check(!a.is_closed(), "others-stay");
    let b = at_once(user::<U>(2)).await.flatten().unwrap_or_else(|| vx::fail("served-again"));
    let f = at_once(fellow::<B, U>()).await.flatten().unwrap_or_else(|| vx::fail("served-again"));
    for x in [&a, &b, &f] { vx::check(!x.is_closed(), "others-stay"); x.take(); }
    vx::check(b.send(Message::Direct(Direct { recipient: uk(1), message: vx::bytes(1) })).await, "sent");
    settle().await;
    vx::check(payloads(a.take()).len() == 1, "delivered-at-once");
    vx::cover("end");
}
async fn marshal_accept_fails<U: Protocol>() where U::Listener: 'static {
    concrete_entropy();
    marshal::<U>().await;
    let mut d = Embedded::new(DB.to_string(), Some(me())).await.unwrap();
    d.perform_heartbeat(0, Duration::from_secs(60)).await.unwrap();
    if vx::choose(2) == 0 { tokio::net::vx_abort_next(1003); drop(TcpStream::connect(MP).await); settle().await; vx::cover("aborted"); }
    else { tokio::net::vx_no_files(true); let _c = TcpStream::connect(MP).await; pass(1 + vx::choose(3) as u64).await; tokio::net::vx_no_files(false); vx::cover("no files"); }
    pass(2).await;
    vx::check(at_once(permit::<U>(1)).await.flatten().is_some(), "served-again");
    vx::cover("end");
}
/// Somebody does not read what it is sent: the others are served at once (or, once memory ran out,
/// when the silent reader was given up).
vx_entry!(slow_reader, {
    run(async {
        concrete_entropy();
        let small = vx::choose(2) == 1;
        serve::<Memory, Memory>(if small { Some(20_000) } else { None }).await;
        let a = user::<Memory>(1).await.unwrap();
        let s = if vx::choose(2) == 0 { user::<Memory>(2).await.unwrap() } else { vx::cover("a broker"); fellow::<Memory, Memory>().await.unwrap() };
        if s.send(topic_sync(&[1])).await { settle().await; }
        let b = user::<Memory>(3).await.unwrap();
        s.reader.abort();
        settle().await;
        for _ in 0..3 {
            vx::check(a.send(Message::Broadcast(Broadcast { topics: vec![1], message: vec![7; 9000] })).await, "sent");
            settle().await;
        }
        if small { pass(6).await; for x in [&a, &b] { for _ in 0..2 { if payloads(x.got.borrow().clone()).len() < 3 { pass(6).await; } } } }
        vx::check(payloads(a.take()).len() == 3 && payloads(b.take()).len() == 3, "delivered");
        vx::check(at_once(user::<Memory>(4)).await.flatten().is_some(), "served-at-once");
        vx::cover("end");
    });
});
vx_entry!(nuisances_tls, { run(nuisances::<Tcp, TcpTls>()); });
vx_entry!(nuisances_tcp, { run(nuisances::<Tcp, Tcp>()); });
vx_entry!(marshal_nuisances_tls, { run(marshal_nuisances::<TcpTls>()); });
vx_entry!(marshal_nuisances_tcp, { run(marshal_nuisances::<Tcp>()); });
vx_entry!(accept_fails_tls, { run(accept_fails::<Tcp, TcpTls>()); });
vx_entry!(marshal_accept_fails_tls, { run(marshal_accept_fails::<TcpTls>()); });
