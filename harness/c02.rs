use sys::*;
fn interested(subs: &[u8], topics: &[u8]) -> bool { subs.iter().fold(false, |a, s| topics.iter().fold(a, |a, t| a | (s == t))) }
const SUBS: [&[u8]; 4] = [&[], &[0], &[1], &[0, 1]];

/// a topic list: short ones of any bytes, and some long ones
fn list(n: usize) -> Vec<u8> {
    let i = vx::choose(n + 3);
    if i < n { return vx::bytes(i + 1); }
    match i - n { 0 => vec![0, 0, 0, 1], 1 => vec![7, 9, 255, 0, 8, 0], _ => { let mut v = vec![9; 70]; v.push(1); v } }
}

/// Four users on two brokers with any subscription sets; one broadcast with any topic list.
vx_entry!(end_to_end, {
    run(async {
        concrete_entropy();
        broker(0).await; broker(1).await;
        settle().await;
        let mut subs: Vec<&[u8]> = Vec::new();
        for i in 0..3 { subs.push(SUBS[vx::choose(4)]); }
        let home = [0usize, 0, 1];
        let mut boxes = Vec::new();
        for i in 0..3 { boxes.push(join(home[i], &uk(i as u8), subs[i]).await.unwrap()); }
        pass(21).await;
        for b in &boxes { vx::check(b.take().is_empty() & !b.is_closed(), "quiet-after-join"); }
        let from = 2 * vx::choose(2);
        let topics = list(deep(2, 3));
        let m = Message::Broadcast(Broadcast { topics: topics.clone(), message: vx::bytes(2) });
        let raw = m.serialize().unwrap();
        boxes[from].send(m).await;
        settle().await;
        for i in 0..3 {
            let got = boxes[i].take();
            let want = interested(subs[i], &topics);
            vx::check(got.len() == want as usize, "exactly-the-interested-exactly-once");
            for g in &got { vx::check(beq(g, &raw), "delivered-unmodified"); vx::cover("delivered"); }
            if i != from { vx::check(!boxes[i].is_closed(), "others-still-connected"); }
        }
        vx::cover("end");
    });
});

/// One hop: broker traffic goes to interested local users only; user traffic to each interested broker once.
vx_entry!(one_hop, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let p = peer(0, 5).await;
        let q = peer(0, 6).await;
        let (sp, sq, su, sv) = (SUBS[vx::choose(4)], SUBS[vx::choose(4)], SUBS[vx::choose(4)], SUBS[2]);
        if !sp.is_empty() { p.send(topic_sync(sp)).await; }
        if !sq.is_empty() { q.send(topic_sync(sq)).await; }
        let u = join(0, &uk(1), su).await.unwrap();
        let v = join(0, &uk(2), sv).await.unwrap();
        settle().await;
        p.take(); q.take();
        let from_peer = vx::choose(2) == 0;
        let topics = list(2);
        let m = Message::Broadcast(Broadcast { topics: topics.clone(), message: vx::bytes(1) });
        let raw = m.serialize().unwrap();
        (if from_peer { &p } else { &u }).send(m).await;
        settle().await;
        let (gp, gq, gu, gv) = (payloads(p.take()), payloads(q.take()), u.take(), v.take());
        vx::check(gu.len() == interested(su, &topics) as usize && gv.len() == interested(sv, &topics) as usize, "interested-local-users-once");
        if from_peer {
            vx::check(gp.is_empty() & gq.is_empty(), "broker-traffic-not-forwarded");
            vx::cover("from-peer");
        } else {
            vx::check(gp.len() == interested(sp, &topics) as usize && gq.len() == interested(sq, &topics) as usize, "interested-brokers-once");
            vx::cover("from-user");
        }
        for g in gp.iter().chain(&gq).chain(&gu).chain(&gv) { vx::check(beq(g, &raw), "delivered-unmodified"); vx::cover("delivered"); }
    });
});

/// Broadcasts of one sender arrive in the order sent, however the tasks are scheduled.
vx_entry!(in_order, {
    run(async {
        concrete_entropy();
        broker(0).await; broker(1).await;
        settle().await;
        let a = join(0, &uk(0), &[]).await.unwrap();
        let b = [join(0, &uk(1), &[0, 1]).await.unwrap(), join(1, &uk(2), &[0, 1]).await.unwrap()];
        pass(11).await;
        races(deep(2, 3));
        for k in 0..2u8 { a.send(Message::Broadcast(Broadcast { topics: vec![if k == 0 { 0 } else { vx::choose(2) as u8 }], message: { let mut m = vec![k, vx::u8()]; if vx::choose(2) == 1 { m.resize(5000, 0); } m } })).await; }
        settle().await;
        for x in &b {
            let got = x.take();
            vx::check(got.len() == 2, "exactly-the-interested-exactly-once");
            for (k, g) in got.iter().enumerate() { match Message::deserialize(g) { Ok(Message::Broadcast(d)) => vx::check(d.message[0] == k as u8, "in-the-order-sent"), _ => vx::fail("delivered-unmodified") } }
        }
        vx::check(a.take().is_empty(), "to-nobody-else");
        vx::cover("end");
    });
});
