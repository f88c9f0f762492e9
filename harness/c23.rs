use sys::*;
use cdn_proto::def::{ConnectionDef, HookResult, MessageHookDef, RunDef, TestTopic};
use cdn_proto::message::{AuthenticateResponse, AuthenticateWithKey, AuthenticateWithPermit};
// ---- hooks that do what the harness says next
#[derive(Clone, Copy, PartialEq)]
enum Verdict { Process, Skip, Fail }
/// what the hooks for users (0) and brokers (1) answer; how often they were asked, and for whom
static VERDICT: vx::Global<[Verdict; 2]> = vx::Global::new([Verdict::Process; 2]);
static CALLS: vx::Global<[Vec<(u64, Message)>; 2]> = vx::Global::new([Vec::new(), Vec::new()]);
#[derive(Clone)]
struct Hook<const K: usize>(u64);
impl<const K: usize> MessageHookDef for Hook<K> {
    fn on_message_received(&mut self, m: &mut Message) -> anyhow::Result<HookResult> {
        CALLS.get()[K].push((self.0, m.clone()));
        match VERDICT.get()[K] { Verdict::Process => Ok(HookResult::ProcessMessage), Verdict::Skip => Ok(HookResult::SkipMessage), Verdict::Fail => Err(anyhow::anyhow!("no")) }
    }
    fn set_identifier(&mut self, i: u64) { self.0 = i }
}
struct HC<const K: usize>;
impl<const K: usize> ConnectionDef for HC<K> { type Scheme = BLS; type Protocol = Memory; type MessageHook = Hook<K>; }
struct HD;
impl RunDef for HD { type Broker = HC<1>; type User = HC<0>; type DiscoveryClientType = Embedded; type Topic = TestTopic; }
async fn hooked(i: usize) {
    let b: Broker<HD> = Broker::new(Config {
        public_advertise_endpoint: format!("u{i}"), public_bind_endpoint: format!("u{i}"), private_advertise_endpoint: format!("b{i}"), private_bind_endpoint: format!("b{i}"),
        metrics_bind_endpoint: None, discovery_endpoint: DB.to_string(), keypair: key(7), ca_cert_path: None, ca_key_path: None,
        global_memory_pool_size: None, user_message_hook: Hook(0), broker_message_hook: Hook(0),
    }).await.expect("broker");
    tokio::spawn(async move { let _ = b.start().await; });
}
/// one broker, two users (topics 0 | none) and a peer broker interested in topic 1
struct S { a: Inbox, b: Inbox, p: Inbox }
async fn system(hooks: bool) -> S {
    concrete_entropy();
    if hooks { hooked(0).await } else { broker(0).await }
    settle().await;
    let a = join(0, &uk(1), &[0]).await.unwrap();
    let b = join(0, &uk(2), &[]).await.unwrap();
    let p = peer(0, 5).await;
    p.send(user_sync(5, &[uk(6)])).await;
    p.send(topic_sync(&[1])).await;
    pass(11).await;
    for x in [&a, &b, &p] { x.take(); }
    S { a, b, p }
}
fn direct(to: u8, x: u8) -> Message { Message::Direct(Direct { recipient: uk(to), message: vec![x] }) }
fn broadcast(t: u8, x: u8) -> Message { Message::Broadcast(Broadcast { topics: vec![t], message: vec![x] }) }
/// arrived at a connection, without sync traffic: exactly `want`
fn arrived(c: &Inbox, want: &[Message]) -> bool {
    let got = payloads(c.take());
    got.len() == want.len() && got.iter().zip(want).fold(true, |r, (g, w)| r & beq(g, &w.serialize().unwrap()))
}
/// the state of routing is as it was: who gets what from user b, user a and the peer
async fn undisturbed(s: &S, sender: usize) {
    for x in [&s.a, &s.b, &s.p] { vx::check(arrived(x, &[]), "no-other-effect"); }
    if sender == 0 { s.a.send(direct(2, 1)).await; settle().await; vx::check(arrived(&s.b, &[direct(2, 1)]), "others-still-served"); }
    if sender != 2 { s.b.send(direct(1, 2)).await; s.b.send(direct(6, 3)).await; s.b.send(broadcast(0, 4)).await; s.b.send(broadcast(1, 5)).await; } else { s.a.send(direct(1, 2)).await; s.a.send(direct(6, 3)).await; s.a.send(broadcast(0, 4)).await; s.a.send(broadcast(1, 5)).await; }
    settle().await;
    if sender != 1 { vx::check(arrived(&s.a, &[direct(1, 2), broadcast(0, 4)]), "no-other-effect"); }
    vx::check(arrived(&s.p, &[direct(6, 3), broadcast(1, 5)]), "no-other-effect");
    if sender != 2 { vx::check(arrived(&s.b, &[]), "no-other-effect"); }
}
/// messages users may not send
fn not_for_users() -> Message {
    match vx::choose(6) {
        0 => user_sync([5, 8][vx::choose(2)], &[uk(1), uk(2), vec![0x4B, vx::u8()]]),
        1 => topic_sync([&[0][..], &[0, 1][..], &[][..]][vx::choose(3)]),
        2 => Message::AuthenticateWithKey(AuthenticateWithKey { public_key: vec![0x4B, vx::u8()], timestamp: vx::u64(), signature: vec![vx::u8()] }),
        3 => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: vx::u64() }),
        4 => Message::AuthenticateResponse(AuthenticateResponse { permit: vx::u64(), context: String::new() }),
        _ => { let n = vx::choose(3); Message::UserSync(vx::bytes(n)) }
    }
}
vx_entry!(users, {
    run(async {
        let s = system(vx::choose(2) == 1).await;
        let who = 1 + vx::choose(2);
        let u = if who == 1 { &s.a } else { &s.b };
        let m = not_for_users();
        vx::check(u.send(m).await, "sent");
        // what is sent after it has no effect either
        if vx::choose(2) == 1 { u.send(direct(1, 9)).await; u.send(broadcast(1, 9)).await; u.send(Message::Subscribe(vec![1])).await; }
        settle().await;
        vx::check(u.is_closed(), "disconnected");
        vx::check(!s.p.is_closed() && !(if who == 1 { &s.b } else { &s.a }).is_closed(), "nobody-else-disconnected");
        undisturbed(&s, who).await;
        vx::cover("end");
    });
});
vx_entry!(users_allowed, {
    run(async {
        let s = system(false).await;
        let t = vx::u8();
        vx::assume(t < 2);
        match vx::choose(4) {
            0 => { s.a.send(direct(2, 1)).await; settle().await; vx::check(arrived(&s.b, &[direct(2, 1)]), "processed"); }
            1 => { s.a.send(broadcast(t, 1)).await; settle().await; vx::check(if t == 0 { arrived(&s.a, &[broadcast(0, 1)]) } else { arrived(&s.p, &[broadcast(1, 1)]) }, "processed"); }
            2 => { s.b.send(Message::Subscribe(vec![t])).await; settle().await; s.a.send(broadcast(t, 2)).await; settle().await; vx::check(arrived(&s.b, &[broadcast(t, 2)]), "processed"); }
            _ => { s.a.send(Message::Unsubscribe(vec![t])).await; settle().await; s.b.send(broadcast(0, 2)).await; settle().await; vx::check(arrived(&s.a, &[]) == (t == 0), "processed"); }
        }
        vx::check(!s.a.is_closed() && !s.b.is_closed() && !s.p.is_closed(), "stays-connected");
        vx::cover("end");
    });
});
vx_entry!(brokers, {
    run(async {
        let s = system(vx::choose(2) == 1).await;
        let t = vx::u8();
        match vx::choose(5) {
            0 => { s.p.send(Message::Subscribe(vec![t])).await; vx::cover("ignored"); }
            1 => { s.p.send(Message::Unsubscribe(vec![t])).await; vx::cover("ignored"); }
            2 => { s.p.send(Message::AuthenticateWithKey(AuthenticateWithKey { public_key: vec![0x4B, t], timestamp: vx::u64(), signature: vec![vx::u8()] })).await; }
            3 => { s.p.send(Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: vx::u64() })).await; }
            _ => { s.p.send(Message::AuthenticateResponse(AuthenticateResponse { permit: vx::u64(), context: String::new() })).await; }
        }
        settle().await;
        vx::check(!s.p.is_closed(), "ignored");
        undisturbed(&s, 0).await;
        // its own messages still take effect
        s.p.send(direct(1, 1)).await; s.p.send(broadcast(0, 2)).await;
        s.p.send(topic_sync(&[0])).await; s.p.send(user_sync(5, &[uk(7)])).await;
        settle().await;
        vx::check(arrived(&s.a, &[direct(1, 1), broadcast(0, 2)]), "processed");
        s.a.send(direct(7, 3)).await; s.a.send(broadcast(0, 4)).await;
        settle().await;
        vx::check(arrived(&s.p, &[direct(7, 3), broadcast(0, 4)]), "processed");
        vx::cover("end");
    });
});
vx_entry!(undecodable, {
    run(async {
        let s = system(vx::choose(2) == 1).await;
        let from_user = vx::choose(2) == 1;
        let c = if from_user { &s.a } else { &s.p };
        let raw = match vx::choose(deep(3, 4)) { 0 => vx::bytes(1), 1 => vx::bytes(deep(2, 4)), 2 => if from_user { vec![] } else { let n = vx::choose(3); Message::UserSync(vx::bytes(n)).serialize().unwrap() }, _ => { let n = vx::choose(4); Message::TopicSync(vx::bytes(n)).serialize().unwrap() } };
        let _ = c.conn.send_message_raw(Bytes::from_unchecked(raw)).await;
        let _ = c.conn.send_message(direct(2, 9)).await;
        settle().await;
        vx::check(c.is_closed(), "disconnected");
        vx::check(payloads(s.b.take()).is_empty(), "no-other-effect");
        vx::check(!s.b.is_closed() && !(if from_user { &s.p } else { &s.a }).is_closed(), "nobody-else-disconnected");
        if from_user { undisturbed(&s, 1).await; vx::cover("user") } else { s.b.send(direct(1, 1)).await; settle().await; vx::check(arrived(&s.a, &[direct(1, 1)]), "others-still-served"); vx::cover("broker") }
    });
});
vx_entry!(user_hook, {
    run(async {
        let s = system(true).await;
        *CALLS.get() = [Vec::new(), Vec::new()];
        let v = [Verdict::Process, Verdict::Skip, Verdict::Fail][vx::choose(3)];
        VERDICT.get()[0] = v;
        let acts = v == Verdict::Process;
        let kind = vx::choose(5);
        let m = match kind { 0 => direct(2, 1), 1 => broadcast(1, 1), 2 => Message::Subscribe(vec![1]), 3 => Message::Unsubscribe(vec![0]), _ => not_for_users() };
        s.a.send(m.clone()).await;
        settle().await;
        VERDICT.get()[0] = Verdict::Process;
        let calls = std::mem::take(&mut *CALLS.get());
        vx::check(calls[1].is_empty(), "hook-of-its-kind");
        vx::check(calls[0].len() == 1, "hook-asked-once");
        vx::check(beq(&calls[0][0].1.serialize().unwrap(), &m.serialize().unwrap()), "hook-sees-the-message");
        vx::check(s.a.is_closed() == (v == Verdict::Fail || kind == 4 && acts), "disconnected-exactly-on-failure");
        vx::check(!s.b.is_closed() && !s.p.is_closed(), "nobody-else-disconnected");
        vx::check(arrived(&s.b, if acts && kind == 0 { std::slice::from_ref(&m) } else { &[] }), "effect-exactly-if-processed");
        vx::check(arrived(&s.p, if acts && kind == 1 { std::slice::from_ref(&m) } else { &[] }), "effect-exactly-if-processed");
        if s.a.is_closed() { undisturbed(&s, 1).await; vx::cover("disconnected"); return; }
        // subscriptions are changed exactly if the message was processed; later messages are processed
        let (ka, kb) = (broadcast(0, 5), broadcast(1, 6));
        s.b.send(ka.clone()).await; s.b.send(kb.clone()).await;
        settle().await;
        let want: Vec<Message> = match kind { 2 if acts => vec![ka, kb], 3 if acts => vec![], _ => vec![ka] };
        vx::check(arrived(&s.a, &want), "effect-exactly-if-processed");
        s.a.send(direct(2, 7)).await;
        settle().await;
        vx::check(arrived(&s.b, &[direct(2, 7)]), "later-messages-processed");
        vx::check(CALLS.get()[0].len() == 3, "hook-asked-once");
        // senders are told apart, the same for every connection
        let by: Vec<u64> = CALLS.get()[0].iter().map(|c| c.0).collect();
        vx::check(by[0] == by[1] && by[2] == calls[0][0].0 && by[0] != by[2], "identifies-the-sender");
        let a2 = join(0, &uk(1), &[0]).await.unwrap();
        settle().await;
        a2.send(direct(2, 8)).await;
        settle().await;
        vx::check(CALLS.get()[0].last().unwrap().0 == by[2], "identifies-the-sender");
        vx::cover("end");
    });
});
vx_entry!(broker_hook, {
    run(async {
        let s = system(true).await;
        *CALLS.get() = [Vec::new(), Vec::new()];
        let v = [Verdict::Process, Verdict::Skip, Verdict::Fail][vx::choose(3)];
        VERDICT.get()[1] = v;
        let acts = v == Verdict::Process;
        let kind = vx::choose(5);
        let m = match kind { 0 => direct(2, 1), 1 => broadcast(0, 1), 2 => user_sync(5, &[uk(6), uk(7)]), 3 => topic_sync(&[0, 1]), _ => Message::Subscribe(vec![0]) };
        s.p.send(m.clone()).await;
        settle().await;
        VERDICT.get()[1] = Verdict::Process;
        let calls = std::mem::take(&mut *CALLS.get());
        vx::check(calls[0].is_empty(), "hook-of-its-kind");
        vx::check(calls[1].len() == 1, "hook-asked-once");
        vx::check(s.p.is_closed() == (v == Verdict::Fail), "disconnected-exactly-on-failure");
        vx::check(!s.a.is_closed() && !s.b.is_closed(), "nobody-else-disconnected");
        vx::check(arrived(&s.b, if acts && kind == 0 { std::slice::from_ref(&m) } else { &[] }), "effect-exactly-if-processed");
        vx::check(arrived(&s.a, if acts && kind == 1 { std::slice::from_ref(&m) } else { &[] }), "effect-exactly-if-processed");
        if s.p.is_closed() { vx::cover("disconnected"); return; }
        s.b.send(direct(7, 2)).await; s.b.send(direct(6, 3)).await; s.b.send(broadcast(0, 4)).await; s.b.send(broadcast(1, 5)).await;
        settle().await;
        let mut want = Vec::new();
        if kind == 2 && acts { want.push(direct(7, 2)) }
        want.push(direct(6, 3));
        if kind == 3 && acts { want.push(broadcast(0, 4)) }
        want.push(broadcast(1, 5));
        vx::check(arrived(&s.p, &want), "effect-exactly-if-processed");
        vx::check(arrived(&s.a, &[broadcast(0, 4)]), "effect-exactly-if-processed");
        s.p.send(direct(2, 7)).await;
        settle().await;
        vx::check(arrived(&s.b, &[direct(2, 7)]), "later-messages-processed");
        vx::cover("end");
    });
});
