use sys::*;
/// bytes that are not a message (every undecodable message: see C14)
async fn garbage(c: &Inbox) {
    let n = 1 + 2 * vx::choose(2);
    let raw = vx::bytes(n);
    let _ = c.conn.send_message_raw(Bytes::from_unchecked(raw)).await;
}
/// However a user's connection ends, the broker and its peers forget it and nobody else notices.
vx_entry!(gone, {
    run(async {
        concrete_entropy();
        broker(0).await;
        broker(1).await;
        settle().await;
        let w0 = join(0, &uk(0), &[0]).await.unwrap();
        let w1 = join(1, &uk(1), &[0]).await.unwrap();
        let at = vx::choose(2);
        pass(21).await;
        let u = join(at, &uk(9), &[0, 1]).await.unwrap();
        if vx::choose(2) == 1 { pass(21).await } else { settle().await }
        match vx::choose(4) {
            0 => { u.leave(); vx::cover("dropped"); }
            1 => { let _ = u.conn.soft_close().await; u.leave(); vx::cover("soft-closed"); }
            2 => { garbage(&u).await; settle().await; vx::check(u.is_closed(), "closed-after-garbage"); vx::cover("garbage"); }
            _ => {
                let bad = [Message::UserSync(vec![]), Message::TopicSync(vec![]), Message::AuthenticateWithPermit(cdn_proto::message::AuthenticateWithPermit { permit: vx::u64() })][vx::choose(3)].clone();
                u.send(bad).await;
                settle().await;
                vx::check(u.is_closed(), "closed-after-invalid-message");
                vx::cover("invalid");
            }
        }
        settle().await;
        pass(12).await;
        for w in [&w0, &w1] { w.take(); vx::check(!w.is_closed(), "others-connected"); }
        // nothing is kept for it: messages to it go nowhere, and cost nobody a connection
        let from = [&w0, &w1][vx::choose(2)];
        let to = vx::u8();
        let raw = Message::Direct(Direct { recipient: uk(to), message: vec![1] });
        from.send(raw.clone()).await;
        from.send(Message::Broadcast(Broadcast { topics: vec![1], message: vec![1] })).await;
        settle().await;
        vx::check(w0.take().len() == (to == 0) as usize, "only-the-recipient");
        vx::check(w1.take().len() == (to == 1) as usize, "only-the-recipient");
        from.send(Message::Broadcast(Broadcast { topics: vec![0], message: vec![1] })).await;
        settle().await;
        vx::check(w0.take().len() == 1 && w1.take().len() == 1, "others-still-served");
        // and it can come back, anywhere
        let back = vx::choose(2);
        let u2 = join(back, &uk(9), &[1]).await.unwrap();
        settle().await;
        pass(12).await;
        for w in [&w0, &w1] { w.take(); }
        let d = Message::Direct(Direct { recipient: uk(9), message: vec![2] });
        w0.send(d.clone()).await; w1.send(d).await;
        settle().await;
        vx::check(u2.take().len() == 2 && !u2.is_closed(), "back");
        vx::cover("end");
    });
});
/// The old connection of a user goes away around the time a new one arrives: the new one lives.
vx_entry!(superseded_user, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let w = join(0, &uk(0), &[0]).await.unwrap();
        let u = join(0, &uk(9), &[0]).await.unwrap();
        settle().await;
        let how = vx::choose(3);
        let flood = vx::choose(2) == 1;
        races(if DEEP { 3 } else { 2 });
        match how { 0 => {} 1 => u.reader.abort(), _ => { u.send(Message::UserSync(vec![])).await; } }
        let keep = if how == 1 { drop(u); None } else { Some(u) };
        if flood { w.send(Message::Direct(Direct { recipient: uk(9), message: vec![7] })).await; }
        let u2 = join(0, &uk(9), &[1]).await;
        vx::check(u2.is_some(), "can-join");
        let u2 = u2.unwrap();
        settle().await;
        races(0);
        pass(11).await;
        vx::check(!u2.is_closed(), "new-connection-lives");
        if let Some(u) = &keep { vx::check(u.is_closed(), "old-connection-closed"); u.take(); }
        u2.take(); w.take();
        let t = vx::u8();
        w.send(Message::Direct(Direct { recipient: uk(9), message: vec![t] })).await;
        w.send(Message::Broadcast(Broadcast { topics: vec![0], message: vec![t] })).await;
        w.send(Message::Broadcast(Broadcast { topics: vec![1], message: vec![t] })).await;
        settle().await;
        vx::check(u2.take().len() == 2, "routes-to-new-connection");
        if let Some(u) = &keep { vx::check(u.take().is_empty(), "not-to-old-connection"); }
        vx::check(w.take().len() == 1 && !w.is_closed(), "others-unaffected");
        vx::cover("end");
    });
});
/// A new connection that dies at once leaves nothing behind.
vx_entry!(dead_on_arrival, {
    run(async {
        concrete_entropy();
        broker(0).await;
        broker(1).await;
        settle().await;
        let w = join(0, &uk(0), &[0]).await.unwrap();
        pass(21).await;
        w.take();
        races(if DEEP { 3 } else { 2 });
        let mut d = disc().await;
        let permit = d.issue_permit(&ident(0), Duration::from_secs(30), uk(9)).await.unwrap();
        let conn = Memory::connect("u0", true, Limiter::none()).await.unwrap();
        let _ = conn.send_message(Message::AuthenticateWithPermit(cdn_proto::message::AuthenticateWithPermit { permit })).await;
        let _ = conn.send_message(Message::Subscribe(vec![0])).await;
        match vx::choose(2) {
            0 => { let _ = conn.send_message(Message::UserSync(vec![])).await; vx::cover("invalid"); }
            _ => { let _ = conn.send_message(Message::Subscribe(vec![9])).await; vx::cover("refused"); }
        }
        let n = Inbox::new(conn);
        settle().await;
        races(0);
        pass(11).await;
        vx::check(n.is_closed(), "connection-closed");
        n.leave();
        settle().await;
        // the broker reports the number of users it serves
        let c = d.get_with_least_connections().await.unwrap();
        vx::check(c == ident(1), "not-counted");
        w.send(Message::Broadcast(Broadcast { topics: vec![0], message: vec![1] })).await;
        settle().await;
        vx::check(w.take().len() == 1 && !w.is_closed(), "others-unaffected");
        vx::cover("end");
    });
});
/// The same for broker connections.
vx_entry!(superseded_broker, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let w = join(0, &uk(0), &[0]).await.unwrap();
        let p = peer(0, 5).await;
        p.send(topic_sync(&[1])).await;
        settle().await;
        let how = vx::choose(3);
        let flood = vx::choose(2) == 1;
        races(if DEEP { 3 } else { 2 });
        match how { 0 => {} 1 => p.reader.abort(), _ => { p.send(Message::UserSync(vec![1])).await; } }
        let keep = if how == 1 { drop(p); None } else { Some(p) };
        if flood { w.send(Message::Broadcast(Broadcast { topics: vec![1], message: vec![7] })).await; }
        let p2 = peer_with(0, 5, 7).await;
        vx::check(p2.is_some(), "can-connect");
        let p2 = p2.unwrap();
        p2.send(topic_sync(&[0])).await;
        settle().await;
        races(0);
        pass(11).await;
        vx::check(!p2.is_closed(), "new-connection-lives");
        if let Some(p) = &keep { vx::check(p.is_closed(), "old-connection-closed"); p.take(); }
        p2.take(); w.take();
        let t = vx::u8();
        w.send(Message::Broadcast(Broadcast { topics: vec![0], message: vec![t] })).await;
        w.send(Message::Broadcast(Broadcast { topics: vec![1], message: vec![t] })).await;
        settle().await;
        vx::check(payloads(p2.take()).len() == 1, "routes-by-new-announcement");
        vx::check(w.take().len() == 1 && !w.is_closed(), "others-unaffected");
        vx::cover("end");
    });
});
/// A peer that stops reading is given up, and nothing of what it was interested in survives it.
vx_entry!(stuck, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let w = join(0, &uk(0), &[0]).await.unwrap();
        let user = vx::choose(2) == 1;
        // at most one message is kept for a reader that has gone away
        let limiter = Limiter::new(None, Some(1));
        let conn = Memory::connect(if user { "u0" } else { "b0" }, true, limiter).await.unwrap();
        if user {
            let permit = disc().await.issue_permit(&ident(0), Duration::from_secs(30), uk(9)).await.unwrap();
            UserAuth::<TestingConnection<Memory>>::authenticate_with_broker(&conn, permit, [1u8].into_iter().collect()).await.unwrap();
        } else {
            use cdn_proto::connection::auth::broker::BrokerAuth;
            BrokerAuth::<D>::authenticate_with_broker(&conn, &key(7)).await.unwrap();
            BrokerAuth::<D>::verify_broker(&conn, &ident(5), &key(7).public_key).await.unwrap();
            conn.send_message(topic_sync(&[1])).await.unwrap();
        }
        settle().await;
        // more than fits in between
        for _ in 0..4 { w.send(Message::Broadcast(Broadcast { topics: vec![1], message: vec![7; 5000] })).await; }
        settle().await;
        pass(6).await;
        // (it is noticed by the next message at the latest)
        w.send(Message::Broadcast(Broadcast { topics: vec![1], message: vec![7] })).await;
        settle().await;
        let m = if user { join(0, &uk(9), &[]).await } else { peer_with(0, 5, 7).await };
        vx::check(m.is_some(), "can-come-back");
        let m = m.unwrap();
        settle().await;
        m.take();
        let t = vx::u8();
        vx::check(w.send(Message::Broadcast(Broadcast { topics: vec![1], message: vec![t] })).await, "others-unaffected");
        w.send(Message::Broadcast(Broadcast { topics: vec![0], message: vec![t] })).await;
        settle().await;
        vx::check(payloads(m.take()).is_empty(), "nothing-survives-the-old-connection");
        vx::check(!m.is_closed(), "new-connection-lives");
        vx::check(w.take().len() == 1 && !w.is_closed(), "others-unaffected");
        vx::cover(if user { "user" } else { "broker" });
    });
});
