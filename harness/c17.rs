use sys::*;
use world::*;
type Call = Rc<RefCell<Option<cdn_proto::error::Result<Option<Message>>>>>;
/// one of the client's calls, in a task of its own
fn start(c: &Rc<Client<C>>, kind: usize) -> Call {
    let c = c.clone();
    match kind {
        0 => call(async move { c.send_message(broadcast()).await.map(|()| None) }),
        1 => call(async move { c.receive_message().await.map(Some) }),
        2 => call(async move { c.ensure_initialized().await.map(|()| None) }),
        3 => call(async move { c.subscribe(vec![1]).await.map(|()| None) }),
        4 => call(async move { c.unsubscribe(vec![0]).await.map(|()| None) }),
        _ => call(async move { c.soft_close().await.map(|()| None) }),
    }
}
fn pending(x: &Call) -> bool { x.borrow().is_none() }
async fn up(w: &World, c: &Rc<Client<C>>) {
    vx::check(c.ensure_initialized().await.is_ok(), "connects");
    settle().await;
    vx::check(w.connected(), "ready-only-if-connected");
}
/// the client notices that its connection is gone and starts over
async fn notice(c: &Rc<Client<C>>) { for _ in 0..3 { let _ = c.send_message(broadcast()).await; settle().await; } }
/// connected and serving, and no call is left hanging
async fn serves(w: &World, calls: &[(usize, Call)]) {
    vx::check(w.connected(), "reconnects");
    for (kind, x) in calls { if *kind != 1 { vx::check(!pending(x), "no-call-hangs") } }
    let waiting = calls.iter().filter(|(_, x)| pending(x)).count();
    for _ in 0..waiting { let _ = w.sessions.borrow().last().unwrap().inbox.conn.send_message(broadcast()).await; }
    settle().await;
    for (_, x) in calls { vx::check(!pending(x), "no-call-hangs"); if waiting > 0 { vx::cover("received") } }
}
vx_entry!(recover, {
    run(async {
        let w = world().await;
        let c = Rc::new(client(&[0]));
        if vx::choose(2) == 0 { up(&w, &c).await; w.lose(); vx::cover("lost") }
        let (m, b) = (MODES[vx::choose(4)], MODES[vx::choose(4)]);
        w.marshal.set(m); w.broker.set(b);
        let works = m == Mode::Ok && b == Mode::Ok;
        let mut calls = Vec::new();
        for _ in 0..2 { let k = vx::choose(deep(5, 6)); calls.push((k, start(&c, k))); settle().await; }
        let before = w.asked.get();
        notice(&c).await;
        let first = w.asked.get();
        vx::check(first >= 1, "starts-over");
        let k = [0u64, 13, 26, 100][vx::choose(deep(3, 4))];
        pass(k).await;
        vx::check(!w.connected() || works, "connected-only-if-served");
        if !works {
            // an attempt takes at most 10 seconds, the next one follows 2 seconds later
            vx::check(w.asked.get() as u64 >= first as u64 + k / 13, "keeps-trying");
            vx::check(w.asked.get() as u64 <= first as u64 + k / 2 + 1, "not-in-a-hot-loop");
            for (kind, x) in &calls { if *kind == 2 { if let Some(r) = &*x.borrow() { vx::check(r.is_err() || before == 0 || first > 0, "waits") } else { vx::cover("waiting") } } }
        } else { vx::check(w.connected(), "reconnects"); vx::cover("at once") }
        w.marshal.set(Mode::Ok); w.broker.set(Mode::Ok);
        pass(13).await;
        serves(&w, &calls).await;
        let asked = w.asked.get();
        pass(30).await;
        vx::check(w.asked.get() == asked, "then-stays");
        vx::cover("recovered");
    });
});
vx_entry!(readiness, {
    run(async {
        let w = world().await;
        let c = Rc::new(client(&[0]));
        let lost = vx::choose(2) == 0;
        if lost { up(&w, &c).await; w.lose(); notice(&c).await; w.lose(); settle().await; }
        let (m, b) = (MODES[vx::choose(4)], MODES[vx::choose(4)]);
        if lost { return; }
        w.marshal.set(m); w.broker.set(b);
        let x = start(&c, 2);
        pass([0u64, 13][vx::choose(2)]).await;
        if let Some(r) = &*x.borrow() { vx::check(r.is_err() || w.connected(), "ready-only-if-connected"); vx::cover("ready") } else { vx::check(m != Mode::Ok || b != Mode::Ok, "no-call-hangs"); vx::cover("waits") }
        w.marshal.set(Mode::Ok); w.broker.set(Mode::Ok);
        pass(13).await;
        vx::check(matches!(&*x.borrow(), Some(Ok(_))) && w.connected(), "no-call-hangs");
    });
});
vx_entry!(schedules, {
    run(async {
        let w = world().await;
        let c = Rc::new(client(&[0]));
        up(&w, &c).await;
        let mut calls = Vec::new();
        let (k1, k2, k3) = (vx::choose(5), vx::choose(5), vx::choose(2));
        match vx::choose(3) {
            0 => { calls.push((k1, start(&c, k1))); races(deep(2, 3)); w.lose(); }
            1 => { calls.push((k1, start(&c, k1))); settle().await; races(deep(2, 3)); w.lose(); }
            // the connection is broken already, but no call has failed yet
            _ => { w.lose(); settle().await; let _ = c.send_message(broadcast()).await; settle().await; races(deep(2, 3)); calls.push((k1, start(&c, k1))); }
        }
        calls.push((k2, start(&c, k2)));
        calls.push((k3, start(&c, k3)));
        settle().await;
        races(0);
        notice(&c).await;
        pass(30).await;
        serves(&w, &calls).await;
        vx::cover("end");
    });
});
vx_entry!(closed, {
    run(async {
        let w = world().await;
        let c = Rc::new(client(&[0]));
        let state = vx::choose(3);
        if state != 0 { up(&w, &c).await; }
        if state == 2 { w.lose(); }
        let (m, b) = [(Mode::Ok, Mode::Ok), (Mode::Silent, Mode::Ok), (Mode::Ok, Mode::Silent), (Mode::Refuse, Mode::Ok), (Mode::Drop, Mode::Ok)][vx::choose(5)];
        w.marshal.set(m); w.broker.set(b);
        let mut calls = Vec::new();
        for _ in 0..vx::choose(2) { let k = vx::choose(3); calls.push((k, start(&c, k))); }
        if vx::choose(2) == 0 { settle().await; }
        races(deep(1, 2));
        let k = vx::choose(5);
        calls.push((k, start(&c, k)));
        let cc = c.clone();
        let done = call(async move { cc.close().await });
        settle().await;
        races(0);
        pass(3).await;
        vx::check(done.borrow().is_some(), "close-returns");
        vx::check(c.is_closed(), "closed");
        let (asked, came) = (w.asked.get(), w.came.get());
        for (kind, x) in &calls { if let Some(r) = &*x.borrow() { if *kind == 2 && r.is_ok() { vx::check(came > 0, "ready-only-if-connected"); } } else { vx::check(*kind == 1, "no-call-hangs"); vx::cover("still receiving") } }
        for kind in 0..6 {
            let x = start(&c, kind);
            pass(1).await;
            if kind == 4 && !calls.is_empty() { continue; } // may have nothing to do
            if kind == 3 && matches!(&*x.borrow(), Some(Ok(_))) { vx::check(calls.iter().any(|(k, _)| *k == 3), "closed-calls-fail"); continue; }
            vx::note(&format!("kind {kind} {:?} asked {asked} came {came}", x.borrow().as_ref().map(|r| r.is_ok())), 0);
            vx::check(matches!(&*x.borrow(), Some(Err(_))), "closed-calls-fail");
        }
        pass(60).await;
        vx::check(w.asked.get() == asked && w.came.get() == came, "closed-stays-closed");
        vx::cover("end");
    });
});
/// Closing while a connection is being made, at any point of that.
vx_entry!(closed_while_connecting, {
    run(async {
        let w = world().await;
        let c = Rc::new(client(&[0]));
        if vx::choose(2) == 1 { up(&w, &c).await; w.lose(); settle().await; }
        races(deep(2, 3));
        let waits = start(&c, [0, 2][vx::choose(2)]);
        let cc = c.clone();
        let done = call(async move { cc.close().await });
        settle().await;
        races(0);
        pass(3).await;
        vx::check(done.borrow().is_some(), "close-returns");
        vx::check(c.is_closed() && waits.borrow().is_some(), "no-call-hangs");
        let (asked, came) = (w.asked.get(), w.came.get());
        for kind in [0, 1, 2] {
            let x = start(&c, kind);
            pass(1).await;
            vx::check(matches!(&*x.borrow(), Some(Err(_))), "closed-calls-fail");
        }
        pass(60).await;
        vx::check(w.asked.get() == asked && w.came.get() == came, "closed-stays-closed");
        vx::cover("end");
    });
});
