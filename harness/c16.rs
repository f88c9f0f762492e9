use sys::*;
use world::*;
fn toggle(set: &mut Vec<u8>, t: &[u8], on: bool) { for x in t { set.retain(|y| y != x); if on { set.push(*x) } } }
fn same(a: &[u8], b: &[u8]) -> bool { a.iter().fold(true, |r, x| r & b.iter().fold(false, |q, y| q | (x == y))) & b.iter().fold(true, |r, x| r & a.iter().fold(false, |q, y| q | (x == y))) }
/// until the client is connected again
async fn connected(c: &Client<C>, w: &World) {
    for _ in 0..3 {
        let _ = c.send_message(broadcast()).await;
        settle().await;
        if c.ensure_initialized().await.is_err() { vx::fail("client-is-not-closed") }
        settle().await;
        if w.connected() { return; }
    }
    vx::fail("reconnects")
}
vx_entry!(history, {
    run(async {
        let w = world().await;
        let mut set: Vec<u8> = [vec![], vec![0u8], vec![1, 1, 0]][vx::choose(3)].clone();
        let c = client(&set);
        vx::check(c.ensure_initialized().await.is_ok(), "connects");
        settle().await;
        // what the broker has been told on the newest connection
        let mut told: Vec<u8> = w.sessions.borrow()[0].announced.clone();
        vx::check(same(&told, &set), "announced-at-connection");
        let mut up = true;
        for _ in 0..deep(3, 4) {
            match vx::choose(4) {
                op @ (0 | 1) => {
                    let t = match vx::choose(3) { 0 => vec![vx::u8()], 1 => vec![0, vx::u8()], _ => vec![] };
                    let before = set.clone();
                    let r = if op == 0 { c.subscribe(t.clone()).await } else { c.unsubscribe(t.clone()).await };
                    settle().await;
                    if r.is_ok() { toggle(&mut set, &t, op == 0); vx::cover("changed") } else { vx::check(!up, "call-succeeds-when-connected"); vx::cover("failed") }
                    if up {
                        let ms = w.got();
                        if same(&before, &set) { vx::check(ms.is_empty(), "nothing-changes-nothing-sent"); vx::cover("no change") }
                        for m in ms { match m { Message::Subscribe(t) => { vx::check(!t.is_empty(), "no-empty-request"); toggle(&mut told, &t, true) } Message::Unsubscribe(t) => { vx::check(!t.is_empty(), "no-empty-request"); toggle(&mut told, &t, false) } _ => vx::fail("only-what-was-asked") } }
                        vx::check(same(&told, &set), "broker-is-told");
                    }
                }
                2 => { w.lose(); settle().await; up = false; vx::cover("lost") }
                _ => { let n = w.sessions.borrow().len(); connected(&c, &w).await; if !up { told = w.sessions.borrow().last().unwrap().announced.clone(); vx::check(same(&told, &set), "announced-on-reconnect"); up = true; } w.got(); let _ = n; }
            }
        }
        w.lose();
        settle().await;
        connected(&c, &w).await;
        vx::check(same(&w.sessions.borrow().last().unwrap().announced, &set), "announced-on-reconnect");
        vx::cover("end");
    });
});

vx_entry!(concurrent, {
    run(async {
        let w = world().await;
        let c = Rc::new(client(&[0, 1]));
        vx::check(c.ensure_initialized().await.is_ok(), "connects");
        settle().await;
        let mut told = w.sessions.borrow()[0].announced.clone();
        let sub = |on: bool, t: u8| { let c = c.clone(); (on, t, call(async move { if on { c.subscribe(vec![t]).await } else { c.unsubscribe(vec![t]).await } })) };
        let (cr, cs) = (c.clone(), c.clone());
        let lost = vx::choose(4);
        if lost == 1 { w.lose(); let _ = c.send_message(broadcast()).await; if vx::choose(2) == 0 { settle().await; } }
        if lost == 3 { w.lose(); settle().await; let _ = c.send_message(broadcast()).await; settle().await; let _ = c.send_message(broadcast()).await; }
        races(deep(2, 3));
        let _r = call(async move { let _ = cr.receive_message().await; });
        let mut calls = vec![sub(true, 2)];
        if lost == 2 { w.lose(); }
        let _s = call(async move { let _ = cs.send_message(broadcast()).await; });
        if vx::choose(2) == 0 { calls.push(sub(false, 0)); calls.push(sub(true, 3)); } else { calls.push(sub(false, 0)); calls.push(sub(false, 1)); }
        settle().await;
        races(0);
        let mut set = vec![0u8, 1];
        for (on, t, r) in &calls { match &*r.borrow() { Some(Ok(())) => { toggle(&mut set, &[*t], *on); vx::cover("changed") } Some(Err(_)) => { vx::check(lost != 0, "call-succeeds-when-connected"); vx::cover("failed") } None => vx::fail("call-returns") } }
        connected(&c, &w).await;
        if lost != 0 { told = w.sessions.borrow().last().unwrap().announced.clone(); vx::cover("reconnected") }
        for m in w.got() { match m { Message::Subscribe(t) => toggle(&mut told, &t, true), Message::Unsubscribe(t) => toggle(&mut told, &t, false), Message::Broadcast(_) => {}, _ => vx::fail("only-what-was-asked") } }
        vx::check(same(&told, &set), "broker-is-told");
        w.lose();
        settle().await;
        connected(&c, &w).await;
        vx::check(same(&w.sessions.borrow().last().unwrap().announced, &set), "announced-on-reconnect");
    });
});
