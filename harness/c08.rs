use sys::*;
use cdn_proto::message::{AuthenticateResponse, AuthenticateWithKey, AuthenticateWithPermit};
async fn dial(b: usize) -> Inbox { Inbox::new(Memory::connect(&format!("u{b}"), true, Limiter::none()).await.unwrap()) }
/// what the broker answered: None nothing, Some(admitted)
fn answer(i: &Inbox) -> Option<bool> {
    let v = i.take();
    vx::check(v.len() <= 1, "one-answer");
    v.first().map(|m| match Message::deserialize(m) { Ok(Message::AuthenticateResponse(r)) => r.permit == 1, _ => { vx::fail("answer-type") } })
}
async fn presented(i: &Inbox, permit: u64) -> bool {
    i.send(Message::AuthenticateWithPermit(AuthenticateWithPermit { permit })).await;
    settle().await;
    let a = answer(i) == Some(true);
    vx::check(a || i.is_closed(), "refused-means-closed");
    a
}
/// Whoever the connection gets to speak for is the key the permit was issued for.
async fn served_as(i: &Inbox, w: &Inbox, who: u8) {
    i.take(); w.take();
    let x = vx::u8();
    w.send(Message::Direct(Direct { recipient: uk(x), message: vec![1] })).await;
    w.send(Message::Broadcast(Broadcast { topics: vec![1], message: vec![1] })).await;
    settle().await;
    vx::check(i.take().len() == (x == who) as usize + 1, "speaks-for-the-permit-key");
}
async fn not_served(i: &Inbox, w: &Inbox) {
    i.take(); w.take();
    w.send(Message::Direct(Direct { recipient: uk(vx::u8()), message: vec![1] })).await;
    w.send(Message::Broadcast(Broadcast { topics: vec![0, 1], message: vec![1] })).await;
    settle().await;
    vx::check(i.take().is_empty(), "not-served");
}
/// Every permit value, at any age, at any broker: admitted iff it was issued for this broker, did not
/// expire and was not used.
vx_entry!(admission, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let w = join(0, &uk(0), &[0]).await.unwrap();
        let mut d = disc().await;
        let mine = d.issue_permit(&ident(0), Duration::from_secs(30), uk(5)).await.unwrap();
        let mine2 = d.issue_permit(&ident(0), Duration::from_secs(30), uk(6)).await.unwrap();
        let foreign = d.issue_permit(&ident(1), Duration::from_secs(30), uk(7)).await.unwrap();
        let age = [0u64, 28, 32][vx::choose(3)];
        pass(age).await;
        let p = vx::u64();
        let c = dial(0).await;
        let ok = presented(&c, p).await;
        let fresh = age < 30;
        let valid = ((p == mine) | (p == mine2)) & fresh;
        vx::check(ok == valid, "admitted-iff-valid");
        if p == foreign { vx::cover("foreign"); }
        if !fresh && p == mine { vx::cover("expired"); }
        if ok {
            c.send(Message::Subscribe(vec![1])).await;
            settle().await;
            served_as(&c, &w, if p == mine { 5 } else { 6 }).await;
            // once
            let c2 = dial(0).await;
            vx::check(!presented(&c2, p).await, "single-use");
            vx::check(!c.is_closed(), "unaffected-by-reuse");
            // the other permit is still good (and the reason is not that this one was used)
            let other = if p == mine { mine2 } else { mine };
            let c3 = dial(0).await;
            vx::check(presented(&c3, other).await, "others-still-valid");
            vx::cover("admitted");
        } else {
            not_served(&c, &w).await;
            // a refused attempt does not burn anybody's permit
            let c3 = dial(0).await;
            vx::check(presented(&c3, mine).await == fresh, "others-still-valid");
            vx::cover("refused");
        }
    });
});
/// Anything else than a permit first, or than subscriptions second, is not admitted.
vx_entry!(protocol_order, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let w = join(0, &uk(0), &[0]).await.unwrap();
        let mut d = disc().await;
        let mine = d.issue_permit(&ident(0), Duration::from_secs(30), uk(5)).await.unwrap();
        let c = dial(0).await;
        let second = vx::choose(2) == 1;
        if second { vx::check(presented(&c, mine).await, "permit-accepted"); }
        match vx::choose(9) {
            0 => { c.send(Message::Direct(Direct { recipient: uk(vx::u8()), message: vec![9] })).await; }
            1 => { c.send(Message::Broadcast(Broadcast { topics: vec![vx::u8()], message: vec![9] })).await; }
            2 => { vx::assume(!second); c.send(Message::Subscribe(vec![vx::u8()])).await; }
            3 => { c.send(Message::Unsubscribe(vec![vx::u8()])).await; }
            4 => { c.send(Message::AuthenticateWithKey(AuthenticateWithKey { public_key: uk(0), timestamp: 0, signature: vec![] })).await; }
            5 => { c.send(Message::AuthenticateResponse(AuthenticateResponse { permit: vx::u64(), context: String::new() })).await; }
            6 => { c.send([user_sync(1, &[uk(0)]), topic_sync(&[0])][vx::choose(2)].clone()).await; }
            7 => { let n = vx::choose(4); let _ = c.conn.send_message_raw(Bytes::from_unchecked(vx::bytes(n))).await; }
            _ => { pass(6).await; vx::cover("slow"); }
        }
        settle().await;
        pass(6).await;
        vx::check(answer(&c) != Some(true), "not-admitted");
        vx::check(c.is_closed(), "closed");
        vx::check(w.take().is_empty() && !w.is_closed(), "no-effect-on-others");
        not_served(&c, &w).await;
        vx::cover(if second { "second" } else { "first" });
    });
});
/// The same permit presented twice at the same time admits one connection.
vx_entry!(single_use_race, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let mut d = disc().await;
        let mine = d.issue_permit(&ident(0), Duration::from_secs(30), uk(5)).await.unwrap();
        let n = if DEEP { 3 } else { 2 };
        let cs = [dial(0).await, dial(0).await, dial(0).await];
        races(if DEEP { 3 } else { 2 });
        for c in &cs[..n] { c.send(Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: mine })).await; }
        settle().await;
        races(0);
        let won = cs[..n].iter().filter(|c| answer(c) == Some(true)).count();
        vx::check(won == 1, "exactly-one-admitted");
        vx::cover("end");
    });
});
