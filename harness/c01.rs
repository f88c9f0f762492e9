use sys::*;
/// Users a, b on broker 0 and c, d on broker 1; every message reaches exactly its recipient.
vx_entry!(end_to_end, {
    run(async {
        concrete_entropy();
        broker(0).await; broker(1).await;
        settle().await;
        let boxes = [join(0, &uk(0), &[]).await.unwrap(), join(0, &uk(1), &[]).await.unwrap(), join(1, &uk(2), &[]).await.unwrap(), join(1, &uk(3), &[]).await.unwrap()];
        pass(21).await;
        for b in &boxes { vx::check(b.take().is_empty() & !b.is_closed(), "quiet-after-join"); }
        let k = if DEEP { 3 } else { 2 };
        let mut want: Vec<Vec<Vec<u8>>> = vec![vec![]; 4];
        let mut count = [0u8; 4];
        for _ in 0..k {
            let from = vx::choose(4);
            let to = vx::u8();
            let m = Message::Direct(Direct { recipient: uk(to), message: vx::bytes(2) });
            let raw = m.serialize().unwrap();
            for r in 0..4u8 { if to == r { want[r as usize].push(raw.clone()); } }
            vx::check(boxes[from].send(m).await, "sender-accepted");
            // either messages are in flight together or one after the other
            if vx::choose(2) == 1 { settle().await; }
        }
        settle().await;
        for r in 0..4 {
            let got = boxes[r].take();
            vx::check(got.len() == want[r].len(), "delivered-exactly-once");
            vx::check(!boxes[r].is_closed(), "still-connected");
            // concurrent senders may be reordered: compare as multisets of at most three
            for w in &want[r] { vx::check(got.iter().fold(false, |a, g| a | beq(g, w)), "delivered-unmodified"); }
            for g in &got { vx::check(want[r].iter().fold(false, |a, w| a | beq(g, w)), "nothing-invented"); }
        }
        let n = want.iter().map(|w| w.len()).sum::<usize>();
        if n == k { vx::cover("all-delivered") }
        if n == 0 { vx::cover("unknown-recipients") }
    });
});

/// One hop: what another broker forwards goes to local users only, whatever the maps say.
vx_entry!(one_hop, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let p = peer(0, 5).await;
        let q = peer(0, 6).await;
        p.send(user_sync(5, &[uk(5)])).await;
        q.send(user_sync(6, &[uk(6)])).await;
        let u = join(0, &uk(1), &[]).await.unwrap();
        let v = join(0, &uk(2), &[]).await.unwrap();
        settle().await;
        p.take(); q.take();
        let from_peer = vx::choose(2) == 0;
        let to = vx::u8();
        let m = Message::Direct(Direct { recipient: uk(to), message: vx::bytes(2) });
        let raw = m.serialize().unwrap();
        (if from_peer { &p } else { &u }).send(m).await;
        settle().await;
        let (gp, gq, gu, gv) = (payloads(p.take()), payloads(q.take()), u.take(), v.take());
        vx::check(gu.len() == (to == 1) as usize && gv.len() == (to == 2) as usize, "local-user-exactly-once");
        if from_peer {
            vx::check(gp.is_empty() & gq.is_empty(), "broker-traffic-not-forwarded");
            vx::cover("from-peer");
        } else {
            vx::check(gp.len() == (to == 5) as usize && gq.len() == (to == 6) as usize, "to-the-home-broker-once");
            vx::cover("from-user");
        }
        for g in gp.iter().chain(&gq).chain(&gu).chain(&gv) { vx::check(beq(g, &raw), "delivered-unmodified"); vx::cover("delivered"); }
    });
});

/// The recipient of a direct message is the whole key: any two distinct keys are distinct users.
vx_entry!(exact_key, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        // trailing bytes are part of the identity
        let k1: Vec<u8> = vec![0x4B, 1, 9];
        let k2: Vec<u8> = vec![0x4B, 1, 9, 9];
        let a = join(0, &k1, &[]).await.unwrap();
        let b = join(0, &k2, &[]).await.unwrap();
        settle().await;
        let n = vx::choose(6);
        let to = vx::bytes(n);
        let m = Message::Direct(Direct { recipient: to.clone(), message: vx::bytes(1) });
        a.send(m).await;
        settle().await;
        let (ga, gb) = (a.take().len(), b.take().len());
        vx::check(ga == beq(&to, &k1) as usize, "to-a-iff-its-key");
        vx::check(gb == beq(&to, &k2) as usize, "to-b-iff-its-key");
        if ga == 1 { vx::cover("to-a") }
        if gb == 1 { vx::cover("to-b") }
        if ga + gb == 0 { vx::cover("to-nobody") }
    });
});

/// Messages of one sender to one recipient arrive in the order sent, however the tasks are scheduled.
vx_entry!(in_order, {
    run(async {
        concrete_entropy();
        broker(0).await; broker(1).await;
        settle().await;
        let a = join(0, &uk(0), &[]).await.unwrap();
        let b = [join(0, &uk(1), &[]).await.unwrap(), join(1, &uk(2), &[]).await.unwrap()];
        pass(11).await;
        let to = vx::choose(2);
        races(deep(2, 3));
        for k in 0..deep(2u8, 3) { a.send(Message::Direct(Direct { recipient: uk(1 + to as u8), message: { let mut m = vec![k, vx::u8()]; if vx::choose(2) == 1 { m.resize(5000, 0); } m } })).await; }
        settle().await;
        let got = b[to].take();
        vx::check(got.len() == deep(2, 3), "delivered-exactly-once");
        for (k, g) in got.iter().enumerate() { match Message::deserialize(g) { Ok(Message::Direct(d)) => vx::check(d.message[0] == k as u8, "in-the-order-sent"), _ => vx::fail("delivered-unmodified") } }
        vx::check(b[1 - to].take().is_empty() & a.take().is_empty(), "to-nobody-else");
        vx::cover(if to == 0 { "local" } else { "remote" });
    });
});
