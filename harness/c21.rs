use sys::*;
/// `n` users, one per broker; a broadcast from any of them and a direct message to any of them
/// arrive exactly once.
async fn linked(users: &[Inbox]) {
    for u in users { vx::check(!u.is_closed(), "users-stay"); u.take(); }
    let from = vx::choose(users.len());
    let m = Message::Broadcast(Broadcast { topics: vec![1], message: vx::bytes(2) });
    let raw = m.serialize().unwrap();
    vx::check(users[from].send(m).await, "can-send");
    settle().await;
    for u in users {
        let got = payloads(u.take());
        vx::check(got.len() <= 1, "one-copy");
        vx::check(got.len() == 1, "linked");
        vx::check(beq(&got[0], &raw), "unmodified");
    }
    let to = vx::choose(users.len());
    vx::check(users[from].send(Message::Direct(Direct { recipient: uk(to as u8), message: vx::bytes(1) })).await, "can-send");
    settle().await;
    for (i, u) in users.iter().enumerate() { vx::check(payloads(u.take()).len() == (i == to) as usize, "direct-iff-addressed"); }
    vx::cover("linked");
}
/// Brokers start in any order, any time apart.
vx_entry!(mesh, {
    run(async {
        concrete_entropy();
        const N: usize = 3;
        let mut left: Vec<usize> = (0..N).collect();
        let mut users: Vec<Option<Inbox>> = (0..N).map(|_| None).collect();
        while !left.is_empty() {
            let i = left.remove(vx::choose(left.len()));
            broker(i).await;
            settle().await;
            users[i] = join(i, &uk(i as u8), &[1]).await;
            vx::check(users[i].is_some(), "can-join");
            if !left.is_empty() { pass([0, 4, 13][vx::choose(3)]).await; }
        }
        // one heartbeat to find each other, one exchange of what is where
        pass(11).await;
        pass(11).await;
        let users: Vec<Inbox> = users.into_iter().map(Option::unwrap).collect();
        linked(&users).await;
        vx::cover("end");
    });
});
/// Links break at any time, maybe more than once; they are replaced with the next heartbeat.
vx_entry!(relink, {
    run(async {
        concrete_entropy();
        const N: usize = if DEEP { 3 } else { 2 };
        for i in 0..N { broker(i).await; }
        settle().await;
        let mut users = vec![];
        for i in 0..N { let n = tokio::io::vx_pipes(); users.push((join(i, &uk(i as u8), &[1]).await.unwrap(), n)); }
        let mine = |p: usize, users: &[(Inbox, usize)]| users.iter().any(|u| p >= u.1 && p < u.1 + 2);
        pass(21).await;
        for _ in 0..1 + vx::choose(2) {
            for i in 0..tokio::io::vx_pipes() { if !mine(i, &users) && (N == 2 || vx::choose(2) == 1) { tokio::io::vx_cut(i); } }
            vx::cover("cut");
            if vx::choose(2) == 1 { settle().await; }
            pass([0, 3, 9, 11][vx::choose(4)]).await;
        }
        pass(11).await;
        pass(11).await;
        let users: Vec<Inbox> = users.into_iter().map(|u| u.0).collect();
        linked(&users).await;
        vx::cover("end");
    });
});
/// A broker among registered ones that the harness plays: whom does it call, and how often?
vx_entry!(dialling, {
    run(async {
        concrete_entropy();
        // ours is b2; somebody registered as b1, b3 or b4, or one of our own endpoints under another name
        let mut calls = vec![];
        let mut regs = vec![];
        for i in [1usize, 3, 4] { if vx::choose(2) == 1 {
            calls.push((i, if vx::choose(2) == 1 { Some(answering(&format!("b{i}")).await) } else { None }));
            regs.push(Embedded::new(DB.to_string(), Some(ident(i))).await.unwrap());
        } }
        for r in &mut regs { r.perform_heartbeat(0, Duration::from_secs(60)).await.unwrap(); }
        broker(2).await;
        settle().await;
        let hang_up = vx::choose(2) == 1;
        let p = if vx::choose(2) == 1 { vx::cover("dialled us"); Some(peer(2, 3).await) } else { None };
        let rounds = deep(2, 4);
        let mut gone = [0; 5];
        for r in 0..rounds {
            for (i, c) in &calls { if let Some(c) = c {
                let n = gone[*i] + c.borrow().len();
                vx::check(n <= r + 1, "once-per-heartbeat");
                if *i == 1 { vx::check(n == 0, "smaller-calls-us"); vx::cover("not called") }
                else if *i == 3 && p.is_some() { vx::check(n <= 1, "not-when-linked"); }
                else { vx::check(n == r + 1, "called-each-heartbeat"); vx::cover("called") }
                if hang_up { for x in c.borrow_mut().drain(..) { x.leave(); gone[*i] += 1; vx::cover("hung up") } }
            } }
            pass(10).await;
        }
        if let Some(p) = &p { vx::check(!p.is_closed(), "link-stays"); vx::cover("linked") }
        // whatever happened to its calls, users are served
        let u = join(2, &uk(1), &[]).await;
        vx::check(u.is_some(), "users-served");
        vx::cover("end");
    });
});
/// The discovery store fails, once or for a while.
vx_entry!(store_fails, {
    run(async {
        concrete_entropy();
        const N: usize = 2;
        broker(0).await;
        settle().await;
        let mut users = vec![join(0, &uk(0), &[1]).await.unwrap()];
        let long = vx::choose(2) == 1;
        let at = vx::choose(3);
        let second = broker_with(1, 7).await;
        if at == 0 && !long { sqlx::fail_at(1 + vx::choose(8) as u32); }
        tokio::spawn(async move { let _ = second.start().await; });
        if at == 0 && long { sqlx::outage(60); }
        settle().await;
        pass(if at == 0 { 0 } else { 11 }).await;
        if at == 1 { if long { sqlx::outage(60) } else { sqlx::fail_at(1 + vx::choose(8) as u32) } }
        if at == 2 { for i in 2..tokio::io::vx_pipes() { tokio::io::vx_cut(i); } settle().await; if long { sqlx::outage(60) } else { sqlx::fail_at(1 + vx::choose(8) as u32) } }
        pass(25).await;
        if long { vx::cover("outage") } else { vx::cover("failure") }
        sqlx::outage(0);
        sqlx::fail_at(0);
        // the marshal knows the brokers again within a heartbeat, and where the users are
        pass(11).await;
        users.push(join(1, &uk(1), &[1]).await.unwrap());
        pass(11).await;
        let mut d = disc().await;
        let _k0 = join(0, &uk(7), &[]).await.unwrap();
        let _k1 = join(1, &uk(8), &[]).await.unwrap();
        pass(11).await;
        let all = d.get_other_brokers().await.unwrap();
        vx::check(all.len() == N, "brokers-registered");
        if vx::choose(2) == 0 { linked(&users).await; }
        else {
            users.remove(0).leave();
            pass(11).await;
            vx::check(d.get_with_least_connections().await.unwrap() == ident(0), "count-continues");
            vx::cover("counted");
        }
        vx::cover("end");
    });
});
/// Two brokers start together, tasks run in any order.
vx_entry!(together, {
    run(async {
        concrete_entropy();
        let late = vx::choose(2) == 1;
        broker(1).await;
        if late { settle().await; pass(10).await; }
        broker(0).await;
        races(deep(2, 3));
        settle().await;
        races(0);
        let mut users = vec![];
        for i in 0..2 { users.push(join(i, &uk(i as u8), &[1]).await.unwrap()); }
        pass(11).await;
        pass(11).await;
        linked(&users).await;
        vx::cover("end");
    });
});
