use sys::*;
use cdn_client::{Client, Config as CConfig};
use cdn_proto::connection::protocols::{quic::Quic, tcp_tls::TcpTls, Listener, UnfinalizedConnection};
use cdn_proto::crypto::tls::{generate_cert_from_ca, load_ca, PROD_CA_CERT};
use cdn_proto::message::AuthenticateResponse;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
const A: &str = "127.0.0.1:1001";
const B: &str = "127.0.0.1:1002";
/// a certificate somebody may present, and whom it convinces: (those who trust the local authority,
/// those who trust the production authority)
fn presented(k: usize) -> ((CertificateDer<'static>, PrivateKeyDer<'static>), (bool, bool)) {
    let (cert, key) = load_ca(None, None).unwrap();
    let real = |c: &str| generate_cert_from_ca(c, &key).unwrap();
    let raw = |v: Vec<u8>| (CertificateDer::from(v), real(&cert).1);
    let (l, p) = (cert.trim().as_bytes(), PROD_CA_CERT.trim().as_bytes());
    match k {
        0 => (real(&cert), (true, false)),
        1 => (real(PROD_CA_CERT), (false, true)),
        2 => (real("-----BEGIN CERTIFICATE-----\nMIIother\n-----END CERTIFICATE-----\n"), (false, false)),
        // for somebody else
        3 => (raw([l, b"|example,esp,espresso.org"].concat()), (false, false)),
        4 => (raw([p, b"|localhost"].concat()), (false, false)),
        5 => (raw([l, b"|other,espresso"].concat()), (true, false)),
        6 => (raw(l.to_vec()), (false, false)),
        _ => (raw(vx::bytes(vx::choose(4))), (false, false)),
    }
}
fn call<T: 'static, F: std::future::Future<Output = T> + 'static>(f: F) -> Rc<RefCell<Option<T>>> {
    let out: Rc<RefCell<Option<T>>> = Default::default();
    let o = out.clone();
    vx::rt::spawn(async move { let r = f.await; *o.borrow_mut() = Some(r); }, |_| ());
    out
}
async fn serve<P: Protocol>(at: &str, (cert, key): (CertificateDer<'static>, PrivateKeyDer<'static>)) -> Rc<RefCell<Vec<Connection>>> where P::Listener: 'static {
    let l = P::bind(at, cert, key).await.unwrap_or_else(|_| vx::fail("binds"));
    let ys: Rc<RefCell<Vec<Connection>>> = Default::default();
    let ys2 = ys.clone();
    vx::rt::spawn(async move { while let Ok(u) = l.accept().await { if let Ok(c) = u.finalize(Limiter::none()).await { ys2.borrow_mut().push(c); } } }, |_| ());
    ys
}
async fn servers<P: Protocol>() where P::Listener: 'static {
    // connections made before
    for at in 0..vx::choose(deep(2, 3)) {
        let trusts = vx::choose(2) == 1;
        let at = [B, "127.0.0.1:1003"][at];
        let _ys = serve::<P>(at, presented(vx::choose(2)).0).await;
        let x = call(P::connect(at, trusts, Limiter::none()));
        pass(11).await;
        drop(x);
        vx::cover("earlier");
    }
    let local = vx::choose(2) == 1;
    let (cert, ok) = presented(vx::choose(8));
    let ok = if local { ok.0 } else { ok.1 };
    let ys = serve::<P>(A, cert).await;
    let x = call(P::connect(A, local, Limiter::none()));
    settle().await;
    if x.borrow().is_none() { vx::check(!ok, "connects-at-once"); pass(11).await; }
    let x = x.borrow_mut().take();
    match x {
        Some(Ok(c)) => {
            vx::check(ok, "only-certified-servers");
            let m = vx::bytes(2);
            vx::check(c.send_message_raw(Bytes::from_unchecked(m.clone())).await.is_ok(), "sent");
            settle().await;
            let y = ys.borrow_mut().pop().unwrap_or_else(|| vx::fail("accepts"));
            let r = call(async move { y.recv_message_raw().await.ok().map(|m| m.to_vec()) });
            settle().await;
            vx::check(r.borrow().clone().flatten().is_some_and(|g| beq(&g, &m)), "usable");
            vx::cover("accepted");
        }
        Some(Err(_)) => { vx::check(!ok, "certified-servers-accepted"); vx::cover("refused") }
        None => vx::fail("gives-up"),
    }
}
/// Something that does not speak TLS, whatever it says.
async fn no_tls() {
    let local = vx::choose(2) == 1;
    let l = tokio::net::TcpListener::bind(A).await.unwrap();
    let mut say = vx::bytes(vx::choose(4));
    // (the length of a certificate in the model's handshake; three choices of it)
    if say.len() > 1 { say[0] = 0; say[1] = [0, 1, 9][vx::choose(3)]; }
    let stay = vx::choose(2) == 1;
    vx::rt::spawn(async move {
        use tokio::io::AsyncWriteExt;
        let mut s = l.accept().await.unwrap().0;
        let _ = s.write_all(&say).await;
        if stay { vx::cover("stays"); tokio::time::sleep(Duration::from_secs(100)).await }
    }, |_| ());
    let x = call(TcpTls::connect(A, local, Limiter::none()));
    pass(11).await;
    vx::check(matches!(*x.borrow(), Some(Err(_))), "no-fallback");
    vx::cover("refused");
}
/// A real client, its marshal and the broker it is sent to, each with any certificate.
async fn client<P: Protocol>() where P::Listener: 'static {
    concrete_entropy();
    let local = vx::choose(2) == 1;
    let pick = |k: usize| { let (c, ok) = presented(k); (c, if local { ok.0 } else { ok.1 }) };
    let (mc, m_ok) = pick([0, 1, 2, 3][vx::choose(4)]);
    let (bc, b_ok) = pick([0, 1, 2, 3][vx::choose(4)]);
    let (ms, bs) = (serve::<P>(A, mc).await, serve::<P>(B, bc).await);
    let c = Rc::new(Client::<TestingConnection<P>>::new(CConfig { endpoint: A.to_string(), use_local_authority: local, keypair: key(1), subscribed_topics: vec![1] }));
    let c2 = c.clone();
    let done = call(async move { c2.ensure_initialized().await.is_ok() });
    settle().await;
    // the marshal that was reached sends the client to the broker
    for m in ms.borrow_mut().drain(..) {
        vx::check(m_ok, "only-certified-servers");
        vx::rt::spawn(async move {
            if matches!(m.recv_message().await, Ok(Message::AuthenticateWithKey(_))) {
                let _ = m.send_message(Message::AuthenticateResponse(AuthenticateResponse { permit: 5, context: B.to_string() })).await;
                let _ = m.soft_close().await;
            }
        }, |_| ());
    }
    settle().await;
    for b in bs.borrow_mut().drain(..) {
        vx::check(m_ok && b_ok, "only-certified-servers");
        let r = call(async move { let m = b.recv_message().await; (b, m) });
        settle().await;
        let Some((b, Ok(Message::AuthenticateWithPermit(p)))) = r.borrow_mut().take() else { vx::fail("presents-its-permit") };
        vx::check(p.permit == 5, "presents-its-permit");
        vx::check(b.send_message(Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: String::new() })).await.is_ok(), "sent");
        settle().await;
        std::mem::forget(b);
    }
    settle().await;
    vx::check((*done.borrow() == Some(true)) == (m_ok && b_ok), "connected-iff-certified");
    if m_ok && b_ok { vx::cover("connected") } else { vx::cover("not connected") }
    drop(c);
}
vx_entry!(servers_tls, { run(servers::<TcpTls>()) });
vx_entry!(servers_quic, { run(servers::<Quic>()) });
vx_entry!(no_tls_at_all, { run(no_tls()) });
vx_entry!(client_tls, { run(client::<TcpTls>()) });
vx_entry!(client_quic, { run(client::<Quic>()) });
