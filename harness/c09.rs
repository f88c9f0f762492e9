use sys::*;
use cdn_proto::crypto::signature::{Namespace, SignatureScheme};
use cdn_proto::message::{AuthenticateResponse, AuthenticateWithKey};
use cdn_marshal::{Config as MConfig, Marshal};
fn now() -> u64 { verif_std::time::SystemTime::now().duration_since(verif_std::time::UNIX_EPOCH).unwrap().as_secs() }
async fn marshal() {
    let m = Marshal::<D>::new(MConfig { bind_endpoint: "m".to_string(), discovery_endpoint: DB.to_string(), ca_cert_path: None, ca_key_path: None, metrics_bind_endpoint: None, global_memory_pool_size: None }).await.expect("marshal");
    tokio::spawn(async move { let _ = m.start().await; });
    settle().await;
}
async fn dial() -> Inbox { Inbox::new(Memory::connect("m", true, Limiter::none()).await.unwrap()) }
fn sign(k: &KeyPair<BLS>, ns: &'static str, msg: &[u8]) -> Vec<u8> { <BLS as SignatureScheme>::sign(&k.private_key, ns, msg).unwrap() }
/// a broker that registered with this load
async fn registered(i: usize, load: u64) -> Embedded {
    let mut d = Embedded::new(DB.to_string(), Some(ident(i))).await.unwrap();
    d.perform_heartbeat(load, Duration::from_secs(60)).await.unwrap();
    d
}
/// exactly one answer, then the connection is closed
fn answer(c: &Inbox) -> Option<AuthenticateResponse> {
    let v = c.take();
    vx::check(v.len() <= 1, "one-answer");
    vx::check(c.is_closed(), "closed-afterwards");
    v.first().map(|m| match Message::deserialize(m) { Ok(Message::AuthenticateResponse(r)) => r, _ => vx::fail("answer-type") })
}
/// no permit is outstanding: each would count as load of the (otherwise idle) broker 0
async fn no_permit() {
    let least = disc().await.get_with_least_connections().await.unwrap();
    vx::check(least == ident(0), "no-permit-issued");
}
/// the permit admits exactly this key at exactly this broker
async fn redeems(broker: usize, permit: u64, key: &[u8]) {
    vx::check(permit > 1, "permit-is-not-a-status");
    let mut d = disc().await;
    let wrong = d.validate_permit(&ident(1 - broker), permit).await.unwrap();
    vx::check(wrong.is_none(), "permit-for-that-broker-only");
    let k = d.validate_permit(&ident(broker), permit).await.unwrap();
    vx::check(k.is_some_and(|k| beq(&k, key)), "permit-for-that-key");
}
/// Admission of any key, timestamp and signature against every signature ever made by two honest users
/// for either purpose.
vx_entry!(admission, {
    run(async {
        concrete_entropy();
        marshal().await;
        let _b1 = registered(1, 1).await;
        let _b0 = registered(0, 0).await;
        let (a, b) = (key(1), key(2));
        let t0 = now();
        // signatures in existence: by a and b, for this and the other purpose, of the same time, and of others' texts
        sign(&a, Namespace::UserMarshalAuth.as_str(), &t0.to_le_bytes());
        sign(&a, Namespace::BrokerBrokerAuth.as_str(), &t0.to_le_bytes());
        sign(&b, Namespace::UserMarshalAuth.as_str(), &t0.to_le_bytes());
        let age = vx::choose(4);
        pass([0, 5, 6, 40][age]).await;
        let fresh = age < 2;
        let _b1 = registered(1, 1).await;
        let _b0 = registered(0, 0).await;
        let (pk, ts, sig) = (vx::u8(), vx::u64(), vx::u8());
        let tag = vx::u8();
        let c = dial().await;
        c.send(Message::AuthenticateWithKey(AuthenticateWithKey { public_key: vec![tag, pk], timestamp: ts, signature: vec![0x53, sig] })).await;
        settle().await;
        let r = answer(&c);
        let signed = (ts == t0) & (((sig == 0) & (pk == 1)) | ((sig == 2) & (pk == 2))) & (tag == 0x4B);
        let admitted = r.as_ref().is_some_and(|r| r.permit > 1);
        vx::check(admitted == (signed && fresh), "admitted-iff-signed-and-fresh");
        if admitted {
            let r = r.unwrap();
            vx::check(r.context == "u0", "directed-to-the-chosen-broker");
            redeems(0, r.permit, &[tag, pk]).await;
            vx::cover("admitted");
        } else {
            vx::check(r.is_some_and(|r| r.permit == 0), "told-so");
            if signed { vx::cover("stale") } else { vx::cover("forged") }
        }
        no_permit().await;
    });
});
/// Timestamps: however a (correctly signed) one relates to the marshal's clock.
vx_entry!(freshness, {
    run(async {
        concrete_entropy();
        marshal().await;
        let _b1 = registered(1, 1).await;
        let _b0 = registered(0, 0).await;
        let a = key(1);
        let t0 = now();
        let ts = [t0 - 6, t0 - 5, t0 - 1, t0, t0 + 1, t0 + 4, t0 + 6, 0, u64::MAX, u64::MAX - 5][vx::choose(10)];
        let sig = sign(&a, Namespace::UserMarshalAuth.as_str(), &ts.to_le_bytes());
        let c = dial().await;
        c.send(Message::AuthenticateWithKey(AuthenticateWithKey { public_key: uk(1), timestamp: ts, signature: sig })).await;
        settle().await;
        let r = answer(&c);
        let admitted = r.as_ref().is_some_and(|r| r.permit > 1);
        let must = ts <= t0 && t0 - ts <= 5;
        vx::check(!must || admitted, "fresh-accepted");
        vx::check(must || !admitted, "old-or-future-refused");
        if !admitted { no_permit().await; vx::check(r.is_some_and(|r| r.permit == 0), "told-so"); vx::cover("refused"); } else { vx::cover("accepted") }
    });
});
/// The whitelist, and failures of the discovery store at any step.
vx_entry!(whitelist_and_faults, {
    run(async {
        concrete_entropy();
        marshal().await;
        let _b1 = registered(1, 1).await;
        let _b0 = registered(0, 0).await;
        let mut d = disc().await;
        let wl = vx::choose(4);
        match wl {
            0 => {}
            1 => d.set_whitelist(vec![Arc::new(uk(1))]).await.unwrap(),
            2 => d.set_whitelist(vec![Arc::new(uk(2))]).await.unwrap(),
            _ => { d.set_whitelist(vec![Arc::new(uk(1))]).await.unwrap(); d.set_whitelist(vec![Arc::new(uk(2)), Arc::new(uk(3))]).await.unwrap(); }
        }
        let who = 1 + vx::choose(3) as u8;
        let allowed = match wl { 0 => true, 1 => who == 1, 2 => who == 2, _ => who == 2 || who == 3 };
        let k = key(who as u64);
        let ts = now();
        let sig = sign(&k, Namespace::UserMarshalAuth.as_str(), &ts.to_le_bytes());
        let c = dial().await;
        let fail = vx::choose(10) as u32;
        if fail > 0 { sqlx::fail_at(fail); }
        // keys decode with trailing bytes: the identity is the key, not the spelling
        let mut spelled = uk(who);
        if vx::choose(2) == 1 { spelled.push(vx::u8()); vx::cover("alias"); }
        c.send(Message::AuthenticateWithKey(AuthenticateWithKey { public_key: spelled, timestamp: ts, signature: sig })).await;
        settle().await;
        sqlx::fail_at(0);
        let r = answer(&c);
        let admitted = r.as_ref().is_some_and(|r| r.permit > 1);
        vx::check(!admitted || allowed, "not-admitted-unless-allowed");
        if fail == 0 { vx::check(admitted == allowed, "admitted-iff-allowed"); }
        if admitted { redeems(0, r.unwrap().permit, &uk(who)).await; vx::cover("admitted"); }
        else { no_permit().await; if allowed { vx::cover("fault") } else { vx::cover("not-allowed") } }
    });
});
/// Anything that is not an authentication request gets no permit; a silent peer is let go.
vx_entry!(other_messages, {
    run(async {
        concrete_entropy();
        marshal().await;
        let _b1 = registered(1, 1).await;
        let _b0 = registered(0, 0).await;
        let c = dial().await;
        match vx::choose(5) {
            0 => { let n = vx::choose(4); let _ = c.conn.send_message_raw(Bytes::from_unchecked(vx::bytes(n))).await; }
            1 => { c.send(Message::AuthenticateWithPermit(cdn_proto::message::AuthenticateWithPermit { permit: vx::u64() })).await; }
            2 => { c.send([Message::Subscribe(vec![vx::u8()]), Message::AuthenticateResponse(AuthenticateResponse { permit: 5, context: String::new() })][vx::choose(2)].clone()).await; }
            3 => { let n = vx::choose(3); c.send(Message::AuthenticateWithKey(AuthenticateWithKey { public_key: vx::bytes(n), timestamp: now(), signature: vx::bytes(2) })).await; vx::cover("malformed"); }
            _ => { pass(6).await; vx::cover("silent"); }
        }
        settle().await;
        let r = answer(&c);
        vx::check(!r.is_some_and(|r| r.permit != 0), "no-permit");
        no_permit().await;
        vx::cover("end");
    });
});
