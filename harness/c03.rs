use sys::*;
/// A history of subscribe and unsubscribe requests (and reconnects) against a set.
vx_entry!(history, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let mut set = [false, false];
        let first = [&[][..], &[0][..], &[1, 7, 0][..]][vx::choose(3)];
        for t in first { if *t < 2 { set[*t as usize] = true; } }
        let mut u = join(0, &uk(1), first).await.unwrap();
        // somebody else, subscribed to everything or to nothing
        let other = vx::choose(2) == 0;
        let w = join(0, &uk(2), if other { &[0, 1][..] } else { &[] }).await.unwrap();
        settle().await;
        let k = if DEEP { 3 } else { 2 };
        for step in 0..k {
            match vx::choose(3) {
                2 => {
                    // the same user connects again: its subscriptions are those of the new connection
                    let again = [&[][..], &[1][..]][vx::choose(2)];
                    let u2 = join(0, &uk(1), again).await.unwrap();
                    settle().await;
                    vx::check(u.is_closed(), "replaced-connection-closed");
                    set = [false, !again.is_empty()];
                    u = u2;
                    vx::cover("reconnected");
                }
                op => {
                    let n = 1 + vx::choose(2);
                    let topics = vx::bytes(n);
                    let valid = topics.iter().fold(false, |a, t| a | (*t < 2));
                    vx::assume(valid); // a request naming no valid topic is refused (see `refused`)
                    for t in 0..2u8 { if topics.iter().fold(false, |a, x| a | (*x == t)) { set[t as usize] = op == 0; } }
                    u.send(if op == 0 { Message::Subscribe(topics) } else { Message::Unsubscribe(topics) }).await;
                    settle().await;
                    vx::cover(if op == 0 { "subscribed" } else { "unsubscribed" });
                }
            }
        }
        vx::check(!u.is_closed(), "still-connected");
        for t in 0..2u8 {
            w.take(); u.take();
            let m = Message::Broadcast(Broadcast { topics: vec![t], message: vec![t] });
            let raw = m.serialize().unwrap();
            w.send(m).await;
            settle().await;
            let got = u.take();
            vx::check(got.len() == set[t as usize] as usize, "receives-iff-subscribed");
            vx::check(w.take().len() == other as usize, "others-unaffected");
            if set[t as usize] { vx::check(beq(&got[0], &raw), "delivered-unmodified"); }
        }
        vx::cover("end");
    });
});

/// Requests that name no valid topic change nothing for anybody else, nor do they make any topic
/// that does not exist one that somebody is interested in.
vx_entry!(refused, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let u = join(0, &uk(1), &[0]).await.unwrap();
        let w = join(0, &uk(2), &[0, 1]).await.unwrap();
        let p = peer(0, 5).await;
        settle().await;
        pass(11).await;
        p.take();
        let op = vx::choose(3);
        let n = vx::choose(3);
        let topics = vx::bytes(n);
        for t in &topics { vx::assume(*t > 1); }
        let probe = topics.clone();
        let mut v = None;
        match op { 0 => { u.send(Message::Subscribe(topics)).await; } 1 => { u.send(Message::Unsubscribe(topics)).await; } _ => { v = join(0, &uk(3), &topics).await; vx::check(v.is_some(), "may-connect"); } }
        settle().await;
        w.send(Message::Broadcast(Broadcast { topics: vec![0, 1], message: vec![3] })).await;
        settle().await;
        vx::check(w.take().len() == 1, "others-unaffected");
        let got = u.take();
        vx::check(got.len() == !u.is_closed() as usize, "old-subscriptions-or-disconnected");
        for t in probe {
            w.send(Message::Broadcast(Broadcast { topics: vec![t, 1], message: vec![4] })).await;
            // also from a broker that knows more topics than this one
            p.send(Message::Broadcast(Broadcast { topics: vec![t], message: vec![5] })).await;
            settle().await;
            vx::check(w.take().len() == 1, "others-unaffected");
            vx::check(u.take().is_empty(), "not-subscribed-to-what-does-not-exist");
            if let Some(v) = &v { vx::check(v.take().is_empty(), "not-subscribed-to-what-does-not-exist"); }
        }
        pass(11).await;
        for m in p.take() { if let Ok(Message::TopicSync(_)) = Message::deserialize(&m) { vx::fail("nothing-to-announce") } }
        vx::cover("end");
    });
});
