use sys::*;
/// afterwards: a direct message from anywhere to anyone reaches the user where it connected last,
/// exactly once.  Unless `strict`, an older connection may live on (but only one).
async fn settled(home: &Option<Inbox>, old: &[Inbox], obs: &[Inbox], strict: bool) {
    for o in old { vx::check(o.is_closed() || !strict, "superseded-connection-closed"); o.take(); }
    vx::check(old.iter().filter(|o| !o.is_closed()).count() <= 1, "at-most-one-connection");
    if let Some(h) = home { vx::check(!h.is_closed(), "latest-connection-stays"); h.take(); }
    for w in obs { vx::check(!w.is_closed(), "others-not-kicked"); }
    let from = vx::choose(obs.len());
    let x = vx::u8();
    let m = Message::Direct(Direct { recipient: uk(x), message: vx::bytes(2) });
    let raw = m.serialize().unwrap();
    vx::check(obs[from].send(m).await, "observer-can-send");
    settle().await;
    if let Some(h) = home {
        let got = h.take();
        vx::check(got.len() == (x == 9) as usize, "reaches-latest-exactly-once");
        for g in &got { vx::check(beq(g, &raw), "unmodified"); vx::cover("reached"); }
    }
    if strict { for o in old { vx::check(o.take().is_empty(), "not-to-old-connection"); } }
    for (i, w) in obs.iter().enumerate() { vx::check(w.take().len() == (x == i as u8) as usize, "observer-iff-addressed"); }
}
/// One user roams between the brokers of a settled mesh.
vx_entry!(roaming, {
    run(async {
        concrete_entropy();
        const NB: usize = if DEEP { 3 } else { 2 };
        for i in 0..NB { broker(i).await; }
        settle().await;
        let mut obs = vec![];
        for i in 0..NB { obs.push(join(i, &uk(i as u8), &[]).await.unwrap()); }
        pass(21).await;
        for w in &obs { w.take(); }
        let k = uk(9);
        let (mut home, mut old): (Option<Inbox>, Vec<Inbox>) = (None, vec![]);
        for _ in 0..4 {
            let op = vx::choose(NB + if home.is_some() { 1 } else { 0 });
            if op < NB {
                let c = join(op, &k, &[]).await;
                vx::check(c.is_some(), "can-join");
                old.extend(home.take());
                home = c;
            } else { home.take().unwrap().leave(); vx::cover("left"); }
            settle().await;
            if vx::choose(2) == 1 { pass(11).await; }
        }
        pass(11).await;
        if old.len() >= 2 { vx::cover("moved") }
        settled(&home, &old, &obs, true).await;
        vx::cover("end");
    });
});
/// A broker joins the mesh late: nobody is disturbed and it learns where everybody is.
vx_entry!(late_broker, {
    run(async {
        concrete_entropy();
        // which broker of the three comes late
        let late = vx::choose(3);
        for i in 0..3 { if i != late { broker(i).await; } }
        settle().await;
        let mut obs = vec![];
        for i in 0..3 { if i != late { obs.push(join(i, &uk(i as u8), &[]).await.unwrap()); } }
        let k = uk(9);
        let at = (late + 1 + vx::choose(2)) % 3;
        let home = join(at, &k, &[]).await;
        pass(1 + 10 * vx::choose(2) as u64).await;
        broker(late).await;
        pass(31).await;
        vx::check(!home.as_ref().unwrap().is_closed(), "user-not-kicked-by-new-broker");
        for w in &obs { vx::check(!w.is_closed(), "others-not-kicked"); }
        obs.insert(late, join(late, &uk(late as u8), &[]).await.unwrap());
        settle().await;
        for w in &obs { w.take(); }
        settled(&home, &[], &obs, true).await;
        vx::cover("end");
    });
});
/// Links between brokers break (everything in flight on them is lost) while a user roams.
vx_entry!(broken_link, {
    run(async {
        concrete_entropy();
        for i in 0..2 { broker(i).await; }
        settle().await;
        pass(21).await;
        let mut links: Vec<usize> = (0..tokio::io::vx_pipes()).collect();
        let obs = vec![join(0, &uk(0), &[]).await.unwrap(), join(1, &uk(1), &[]).await.unwrap()];
        settle().await;
        let (mut home, mut old): (Option<Inbox>, Vec<Inbox>) = (None, vec![]);
        let mut cuts = 0;
        for _ in 0..(if DEEP { 5 } else { 4 }) {
            let op = vx::choose(4);
            if op < 2 {
                let c = join(op, &uk(9), &[]).await;
                vx::check(c.is_some(), "can-join");
                old.extend(home.take());
                home = c;
            } else if op == 2 {
                vx::assume(home.is_some());
                home.take().unwrap().leave();
            } else {
                vx::assume(cuts == 0);
                cuts += 1;
                for i in &links { tokio::io::vx_cut(*i); }
                vx::cover("cut");
            }
            settle().await;
            if vx::choose(2) == 1 {
                let n = tokio::io::vx_pipes();
                pass(11).await;
                links.extend(n..tokio::io::vx_pipes());
            }
        }
        pass(31).await;
        // nobody can tell which of two connections made on either side of a split is the later one:
        // but all agree on one of them
        let left = home.is_some();
        let mut all = old;
        all.extend(home);
        for o in &all { o.take(); }
        let mut alive: Vec<Inbox> = vec![];
        for o in all { if !o.is_closed() { alive.push(o); } }
        vx::check(alive.len() <= 1, "at-most-one-connection");
        vx::check(!left || alive.len() == 1, "not-all-kicked");
        let alive = alive.pop();
        settled(&alive, &[], &obs, true).await;
        vx::cover("end");
    });
});
/// A user moves to another broker and is gone again before that broker told anybody.
vx_entry!(brief_visit, {
    run(async {
        concrete_entropy();
        for i in 0..2 { broker(i).await; }
        settle().await;
        let obs = vec![join(0, &uk(0), &[]).await.unwrap(), join(1, &uk(1), &[]).await.unwrap()];
        pass(11).await;
        for w in &obs { w.take(); }
        let a = vx::choose(2);
        let old = join(a, &uk(9), &[]).await.unwrap();
        if vx::choose(2) == 1 { pass(11).await } else { settle().await }
        // a silent departure, or one with a message users may not send
        let rude = vx::choose(2) == 1;
        races(deep(1, 2));
        let c = join(1 - a, &uk(9), &[]).await.unwrap();
        if rude { c.send(Message::UserSync(vec![])).await; }
        // (it has arrived, and everything it said is on its way)
        vx::check(c.conn.soft_close().await.is_ok(), "can-close");
        c.leave();
        settle().await;
        races(0);
        pass(11).await;
        vx::check(old.is_closed(), "superseded-connection-closed");
        // it returns to either broker
        let back = vx::choose(2);
        let home = join(back, &uk(9), &[]).await;
        settle().await;
        for w in &obs { w.take(); }
        settled(&home, &[], &obs, true).await;
        vx::cover("end");
    });
});
