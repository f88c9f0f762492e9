use sys::*;
use cdn_proto::crypto::signature::{Namespace, SignatureScheme};
use cdn_proto::connection::protocols::{Listener as _, UnfinalizedConnection as _};
use cdn_proto::message::{AuthenticateResponse, AuthenticateWithKey, AuthenticateWithPermit};
fn now() -> u64 { verif_std::time::SystemTime::now().duration_since(verif_std::time::UNIX_EPOCH).unwrap().as_secs() }
fn sign(k: &KeyPair<BLS>, ns: &'static str, ts: u64) -> Vec<u8> { <BLS as SignatureScheme>::sign(&k.private_key, ns, &ts.to_le_bytes()).unwrap() }
fn user_ns() -> &'static str { Namespace::UserMarshalAuth.as_str() }
fn broker_ns() -> &'static str { Namespace::BrokerBrokerAuth.as_str() }
const OURS: u64 = 7;
fn with_key(seed: u8, ts: u64, signature: Vec<u8>) -> Message { Message::AuthenticateWithKey(AuthenticateWithKey { public_key: vec![0x4B, seed], timestamp: ts, signature }) }
fn response(permit: u64, context: &str) -> Message { Message::AuthenticateResponse(AuthenticateResponse { permit, context: context.to_string() }) }
fn get(c: &Inbox) -> Vec<Message> { c.take().iter().map(|m| Message::deserialize(m).unwrap_or_else(|_| vx::fail("broker-sends-messages"))).collect() }
/// One or two linked brokers and two users, one at the first and one at the last.
async fn system(brokers: usize) -> (Inbox, Inbox) {
    concrete_entropy();
    for i in 0..brokers { broker(i).await; settle().await; }
    pass(11).await;
    let a = join(0, &uk(1), &[0]).await.unwrap();
    let b = join(brokers - 1, &uk(2), &[0]).await.unwrap();
    pass(11).await;
    (a, b)
}
/// The peer is no broker to us: it gets nothing (and is let go), and the rest works as before.
async fn left_out(c: &Inbox, a: &Inbox, b: &Inbox) {
    rest_as_before(a, b).await;
    for m in get(c) { vx::check(matches!(m, Message::AuthenticateResponse(_) | Message::AuthenticateWithKey(_)), "peer-gets-nothing"); }
    vx::check(c.is_closed(), "peer-let-go");
}
async fn rest_as_before(a: &Inbox, b: &Inbox) {
    a.take(); b.take();
    a.send(Message::Broadcast(Broadcast { topics: vec![0], message: vec![1] })).await;
    b.send(Message::Direct(Direct { recipient: uk(1), message: vec![2] })).await;
    pass(11).await;
    vx::check(a.take().len() == 2 && b.take().len() == 1, "others-as-before");
}
/// The peer is broker 5 now.
async fn linked(c: &Inbox, a: &Inbox, b: &Inbox) {
    let ms = get(c);
    vx::check(ms.iter().any(|m| matches!(m, Message::UserSync(_))) && ms.iter().any(|m| matches!(m, Message::TopicSync(_))), "peer-gets-state");
    c.send(topic_sync(&[0])).await;
    c.send(user_sync(5, &[uk(50)])).await;
    settle().await;
    a.take(); b.take();
    a.send(Message::Broadcast(Broadcast { topics: vec![0], message: vec![1] })).await;
    a.send(Message::Direct(Direct { recipient: uk(50), message: vec![2] })).await;
    settle().await;
    let got = payloads(c.take());
    vx::check(got.len() == 2 && !c.is_closed(), "peer-is-served");
    vx::check(a.take().len() == 1 && b.take().len() == 1, "others-as-before");
}
/// First message of a peer that dialled: any key, timestamp and signature.
vx_entry!(inbound_first, {
    run(async {
        let (a, b) = system(2).await;
        let ours = key(OURS);
        let t0 = now();
        // the signatures in existence, besides those made by the brokers for each other some time ago
        let base = {
            let s = sign(&ours, broker_ns(), t0);
            sign(&ours, user_ns(), t0); sign(&key(2), broker_ns(), t0);
            s[1]
        };
        let age = vx::choose(3);
        pass([0, 5, 6][age]).await;
        let (pk, ts, sig) = (vx::u8(), vx::u64(), vx::u8());
        let c = Inbox::new(Memory::connect("b0", true, Limiter::none()).await.unwrap());
        c.send(with_key(pk, ts, vec![0x53, sig])).await;
        settle().await;
        let good = (pk == OURS as u8) & (ts == t0) & (sig == base) && age < 2;
        let ms = get(&c);
        let yes = matches!(ms.first(), Some(Message::AuthenticateResponse(r)) if r.permit == 1);
        vx::check(yes == good, "accepted-iff-proven");
        if yes {
            // it tells who it is, and proves itself likewise
            vx::check(matches!(&ms[0], Message::AuthenticateResponse(r) if r.context == ident(0).to_string()), "tells-its-identity");
            let Some(Message::AuthenticateWithKey(k)) = ms.get(1) else { vx::fail("proves-itself") };
            vx::check(k.public_key == vec![0x4B, OURS as u8] && k.timestamp == now(), "proves-itself");
            vx::check(<BLS as SignatureScheme>::verify(&ours.public_key, broker_ns(), &k.timestamp.to_le_bytes(), &k.signature), "proves-itself");
            vx::cover("accepted");
            c.send(response(1, "u5/b5")).await;
            settle().await;
            linked(&c, &a, &b).await;
        } else { vx::cover("refused"); left_out(&c, &a, &b).await; }
    });
});
/// Everything else a peer that dialled may do at either step.
vx_entry!(inbound_other, {
    run(async {
        let (a, b) = system(2).await;
        let c = Inbox::new(Memory::connect("b0", true, Limiter::none()).await.unwrap());
        let second = vx::choose(2) == 1;
        if second { c.send(with_key(OURS as u8, now(), sign(&key(OURS), broker_ns(), now()))).await; settle().await; }
        match vx::choose(6) {
            0 => { let n = vx::choose(3); let _ = c.conn.send_message_raw(Bytes::from_unchecked(vx::bytes(n))).await; vx::cover("garbage"); }
            1 => { c.send([topic_sync(&[0]), user_sync(5, &[uk(1)]), Message::Subscribe(vec![0]), Message::Direct(Direct { recipient: uk(1), message: vec![9] }), Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: 5 })][vx::choose(5)].clone()).await; }
            2 => {
                // a refusal (or an answer unasked for), or an identity that is none
                let p = vx::u64();
                let ctx = vx::choose(2);
                if second && p == 1 { vx::assume(ctx == 1); }
                c.send(response(p, ["u5/b5", "u5"][ctx])).await;
                vx::cover("response");
            }
            3 => { if second { c.send(with_key(OURS as u8, now(), sign(&key(OURS), broker_ns(), now()))).await; } else { c.send(with_key(OURS as u8, now(), sign(&key(OURS), user_ns(), now()))).await; } }
            4 => { pass(6).await; vx::cover("silent"); }
            _ => { c.reader.abort(); settle().await; drop(c); settle().await; rest_as_before(&a, &b).await; vx::cover("gone"); return; }
        }
        settle().await;
        // what comes after does not matter
        if vx::choose(2) == 1 { c.send(response(1, "u5/b5")).await; c.send(topic_sync(&[0])).await; settle().await; }
        if second { vx::cover("second") } else { vx::cover("first") }
        left_out(&c, &a, &b).await;
    });
});
/// A peer that was dialled, because it is registered: any of its answers.
vx_entry!(outbound, {
    run(async {
        let (a, b) = system(1).await;
        let ours = key(OURS);
        let calls = answering("b5").await;
        let mut d = Embedded::new(DB.to_string(), Some(ident(5))).await.unwrap();
        d.perform_heartbeat(0, Duration::from_secs(60)).await.unwrap();
        for _ in 0..11 { pass(1).await; if !calls.borrow().is_empty() { break; } }
        let c = calls.borrow_mut().remove(0);
        let ms = get(&c);
        let [Message::AuthenticateWithKey(k)] = &ms[..] else { vx::fail("proves-itself") };
        vx::check(k.public_key == vec![0x4B, OURS as u8] && k.timestamp == now(), "proves-itself");
        vx::check(<BLS as SignatureScheme>::verify(&ours.public_key, broker_ns(), &k.timestamp.to_le_bytes(), &k.signature), "proves-itself");
        let t0 = now();
        match vx::choose(4) {
            0 => {
                // accepts us, then proves (or does not prove) itself
                c.send(response(1, "u5/b5")).await;
                let base = { let s = sign(&ours, broker_ns(), t0); sign(&ours, user_ns(), t0); sign(&key(2), broker_ns(), t0); s[1] };
                let age = vx::choose(2);
                if age == 1 { pass(4).await; }
                let (pk, ts, sig) = (vx::u8(), vx::u64(), vx::u8());
                c.send(with_key(pk, ts, vec![0x53, sig])).await;
                settle().await;
                // (the broker's own signature of this moment counts: all brokers use the same key)
                let good = (pk == OURS as u8) & (ts == t0) & ((sig == base) | (sig == k.signature[1]));
                let ms = get(&c);
                if good {
                    vx::check(matches!(ms.first(), Some(Message::AuthenticateResponse(r)) if r.permit == 1), "accepts-the-proof");
                    // (the state was part of what was taken)
                    vx::check(ms.iter().any(|m| matches!(m, Message::UserSync(_))) && ms.iter().any(|m| matches!(m, Message::TopicSync(_))), "peer-gets-state");
                    c.send(topic_sync(&[0])).await;
                    settle().await;
                    a.send(Message::Broadcast(Broadcast { topics: vec![0], message: vec![1] })).await;
                    settle().await;
                    vx::check(payloads(c.take()).len() == 1 && !c.is_closed(), "peer-is-served");
                    vx::cover("accepted");
                    return;
                }
                for m in ms { vx::check(matches!(m, Message::AuthenticateResponse(r) if r.permit != 1), "peer-gets-nothing"); }
                vx::cover("refused");
            }
            1 => {
                // refuses us, or tells no identity; its own proof does not help then
                let p = vx::u64();
                let ctx = vx::choose(2);
                if p == 1 { vx::assume(ctx == 1); }
                c.send(response(p, ["u5/b5", "u5"][ctx])).await;
                settle().await;
                c.send(with_key(OURS as u8, now(), sign(&ours, broker_ns(), now()))).await;
                vx::cover("refuses");
            }
            2 => {
                match vx::choose(3) {
                    0 => { let n = vx::choose(3); let _ = c.conn.send_message_raw(Bytes::from_unchecked(vx::bytes(n))).await; }
                    1 => { c.send(topic_sync(&[0])).await; }
                    _ => { c.send(with_key(OURS as u8, now(), sign(&ours, broker_ns(), now()))).await; }
                }
                settle().await;
                c.send(response(1, "u5/b5")).await;
                c.send(with_key(OURS as u8, now(), sign(&ours, broker_ns(), now()))).await;
                vx::cover("nonsense");
            }
            _ => { if vx::choose(2) == 0 { pass(6).await; } else { c.send(response(1, "u5/b5")).await; pass(6).await; } vx::cover("silent"); }
        }
        settle().await;
        left_out(&c, &a, &b).await;
    });
});
/// Who takes the place of a linked broker must prove itself as well.
vx_entry!(impostor, {
    run(async {
        let (a, b) = system(2).await;
        // claims to be broker 1, on a connection of its own
        let c = Inbox::new(Memory::connect("b0", true, Limiter::none()).await.unwrap());
        let wrong = key(OURS + 1);
        match vx::choose(3) {
            0 => { c.send(with_key(OURS as u8 + 1, now(), sign(&wrong, broker_ns(), now()))).await; }
            1 => { c.send(with_key(OURS as u8, now(), sign(&wrong, broker_ns(), now()))).await; }
            _ => {}
        }
        settle().await;
        c.send(response(1, "u1/b1")).await;
        c.send(user_sync(1, &[uk(1), uk(2)])).await;
        settle().await;
        left_out(&c, &a, &b).await;
        vx::cover("end");
    });
});
/// Timestamps: however a (correctly signed) one relates to the broker's clock, in either direction.
vx_entry!(freshness, {
    run(async {
        let (a, b) = system(1).await;
        let ours = key(OURS);
        let inbound = vx::choose(2) == 0;
        let c = if inbound { Inbox::new(Memory::connect("b0", true, Limiter::none()).await.unwrap()) } else {
            let calls = answering("b5").await;
            let mut d = Embedded::new(DB.to_string(), Some(ident(5))).await.unwrap();
            d.perform_heartbeat(0, Duration::from_secs(60)).await.unwrap();
            for _ in 0..11 { pass(1).await; if !calls.borrow().is_empty() { break; } }
            let c = calls.borrow_mut().remove(0);
            get(&c);
            c.send(response(1, "u5/b5")).await;
            c
        };
        let t0 = now();
        let ts = [t0 - 6, t0 - 5, t0 - 1, t0, t0 + 1, t0 + 4, t0 + 6, 0, u64::MAX, u64::MAX - 5][vx::choose(10)];
        let good = ts <= t0 && t0 - ts <= 5;
        c.send(with_key(OURS as u8, ts, sign(&ours, broker_ns(), ts))).await;
        settle().await;
        let ms = get(&c);
        vx::check(good == matches!(ms.first(), Some(Message::AuthenticateResponse(r)) if r.permit == 1), "fresh-iff-accepted");
        if good { vx::cover("fresh") } else if inbound { vx::cover("not fresh"); left_out(&c, &a, &b).await; } else { for m in ms { vx::check(matches!(m, Message::AuthenticateResponse(r) if r.permit != 1), "peer-gets-nothing"); } rest_as_before(&a, &b).await; vx::cover("not fresh"); }
    });
});
