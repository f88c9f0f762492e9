use sys::*;
use cdn_proto::crypto::signature::{Namespace, SignatureScheme};
use cdn_proto::message::{AuthenticateResponse, AuthenticateWithKey, AuthenticateWithPermit};
type Auth = UserAuth<TestingConnection<Memory>>;
fn now() -> u64 { verif_std::time::SystemTime::now().duration_since(verif_std::time::UNIX_EPOCH).unwrap().as_secs() }
fn get(c: &Inbox) -> Vec<Message> { c.take().iter().map(|m| Message::deserialize(m).unwrap_or_else(|_| vx::fail("client-sends-messages"))).collect() }
/// runs `f` on a connection to a peer that is the harness
async fn dialled<T: 'static, F: std::future::Future<Output = T> + 'static>(f: impl FnOnce(Connection) -> F) -> (Inbox, Rc<RefCell<Option<T>>>) {
    concrete_entropy();
    let calls = answering("m").await;
    let conn = Memory::connect("m", true, Limiter::none()).await.unwrap();
    let out: Rc<RefCell<Option<T>>> = Default::default();
    let o = out.clone();
    let fut = f(conn);
    vx::rt::spawn(async move { let r = fut.await; *o.borrow_mut() = Some(r); }, |_| ());
    settle().await;
    let c = calls.borrow_mut().remove(0);
    (c, out)
}
fn other() -> Message {
    [Message::Subscribe(vec![0]), Message::Direct(Direct { recipient: vec![1], message: vec![2] }), Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: 5 }),
     Message::AuthenticateWithKey(AuthenticateWithKey { public_key: uk(1), timestamp: now(), signature: vec![1] }), Message::UserSync(vec![1])][vx::choose(5)].clone()
}
/// Something that is no answer: it must end the attempt with an error
async fn no_answer(c: Inbox) {
    match vx::choose(4) {
        0 => { let n = vx::choose(4); let _ = c.conn.send_message_raw(Bytes::from_unchecked(vx::bytes(n))).await; vx::cover("garbage"); }
        1 => { c.send(other()).await; vx::cover("other message"); }
        2 => { c.reader.abort(); settle().await; drop(c); settle().await; vx::cover("gone"); return; }
        _ => { c.send(other()).await; c.send(Message::AuthenticateResponse(AuthenticateResponse { permit: [1, 77][vx::choose(2)], context: "u0".to_string() })).await; }
    }
    settle().await;
}
vx_entry!(at_marshal, {
    run(async {
        let who = 1 + vx::choose(2) as u64;
        let (c, out) = dialled(|conn| async move { Auth::authenticate_with_marshal(&conn, &key(who)).await }).await;
        // what it asks with
        let ms = get(&c);
        let [Message::AuthenticateWithKey(k)] = &ms[..] else { vx::fail("asks-with-its-key") };
        vx::check(k.public_key == uk(who as u8) && k.timestamp == now(), "asks-with-its-key-now");
        vx::check(<BLS as SignatureScheme>::verify(&key(who).public_key, Namespace::UserMarshalAuth.as_str(), &k.timestamp.to_le_bytes(), &k.signature), "asks-with-a-signature");
        vx::check(out.borrow().is_none(), "waits-for-the-answer");
        if vx::choose(2) == 0 {
            let (p, n) = (vx::u64(), vx::choose(4));
            let context: String = (0..n).map(|_| { let b = vx::u8(); vx::assume(b < 128); b as char }).collect();
            c.send(Message::AuthenticateResponse(AuthenticateResponse { permit: p, context: context.clone() })).await;
            settle().await;
            match out.borrow_mut().take() {
                Some(Ok((e, q))) => { vx::check(p > 1 && q == p && beq(e.as_bytes(), context.as_bytes()), "enters-with-what-was-given"); vx::cover("admitted") }
                Some(Err(_)) => { vx::check(p <= 1, "proper-permit-is-taken"); vx::cover("refused") }
                None => vx::fail("no-result"),
            };
        } else {
            no_answer(c).await;
            vx::check(matches!(*out.borrow(), Some(Err(_))), "anything-else-is-an-error");
        }
    });
});
vx_entry!(at_broker, {
    run(async {
        let permit = vx::u64();
        let topics = [&[][..], &[0][..], &[1, 0][..]][vx::choose(3)];
        let (c, out) = dialled(|conn| async move { let r = Auth::authenticate_with_broker(&conn, permit, topics.iter().copied().collect()).await; std::mem::forget(conn); r }).await;
        let ms = get(&c);
        let [Message::AuthenticateWithPermit(k)] = &ms[..] else { vx::fail("asks-with-its-permit") };
        vx::check(k.permit == permit, "asks-with-its-permit");
        vx::check(out.borrow().is_none(), "waits-for-the-answer");
        if vx::choose(2) == 0 {
            let p = vx::u64();
            c.send(Message::AuthenticateResponse(AuthenticateResponse { permit: p, context: "x".to_string() })).await;
            settle().await;
            let ms = get(&c);
            match out.borrow_mut().take() {
                Some(Ok(())) => {
                    vx::check(p == 1, "enters-when-accepted");
                    let [Message::Subscribe(t)] = &ms[..] else { vx::fail("announces-its-topics") };
                    vx::check(t.len() == topics.len() && topics.iter().all(|x| t.contains(x)), "announces-its-topics");
                    vx::cover("admitted");
                }
                Some(Err(_)) => { vx::check(p != 1, "acceptance-is-taken"); vx::check(ms.is_empty(), "announces-nothing"); vx::cover("refused") }
                None => vx::fail("no-result"),
            };
        } else {
            no_answer(c).await;
            vx::check(matches!(*out.borrow(), Some(Err(_))), "anything-else-is-an-error");
        }
    });
});
/// The whole way in with a real marshal and a real broker
vx_entry!(both, {
    run(async {
        use cdn_marshal::{Config as MConfig, Marshal};
        concrete_entropy();
        broker(0).await;
        settle().await;
        let m = Marshal::<D>::new(MConfig { bind_endpoint: "m".to_string(), discovery_endpoint: DB.to_string(), ca_cert_path: None, ca_key_path: None, metrics_bind_endpoint: None, global_memory_pool_size: None }).await.expect("marshal");
        tokio::spawn(async move { let _ = m.start().await; });
        let w = join(0, &uk(9), &[]).await.unwrap();
        pass(11).await;
        let who = 1 + vx::choose(2) as u8;
        let conn = Memory::connect("m", true, Limiter::none()).await.unwrap();
        let Ok((e, p)) = Auth::authenticate_with_marshal(&conn, &key(who as u64)).await else { vx::fail("marshal-admits") };
        vx::check(e == "u0", "directed-to-the-broker");
        let wait = [0, 29, 31][vx::choose(3)];
        pass(wait).await;
        let conn = Memory::connect(&e, true, Limiter::none()).await.unwrap();
        let r = Auth::authenticate_with_broker(&conn, p, [1].into_iter().collect()).await;
        vx::check(r.is_ok() == (wait < 30), "enters-in-time");
        if r.is_ok() {
            let u = Inbox::new(conn);
            settle().await;
            w.send(Message::Direct(Direct { recipient: uk(who), message: vec![1] })).await;
            w.send(Message::Broadcast(Broadcast { topics: vec![1], message: vec![2] })).await;
            settle().await;
            vx::check(u.take().len() == 2, "served-as-that-key");
            vx::cover("served");
        } else { vx::cover("expired"); }
    });
});
