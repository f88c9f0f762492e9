use sys::*;
use cdn_proto::discovery::redis::Redis;
const SQL: &str = "db";
const RED: &str = "redis://store";
fn list(n: usize) -> Vec<Vec<u8>> { (0..n).map(|_| vec![vx::u8()]).collect() }
fn arcs(l: &[Vec<u8>]) -> Vec<UserPublicKey> { l.iter().map(|k| Arc::new(k.clone())).collect() }
fn distinct(l: &[Vec<u8>]) -> bool { for i in 0..l.len() { for j in 0..i { if l[i][0] == l[j][0] { return false; } } } true }
fn member(l: &Option<Vec<Vec<u8>>>, k: &[u8]) -> bool { match l { None => true, Some(l) => l.iter().fold(false, |a, m| a | beq(m, k)) } }
/// Lists set one after the other, a failure at any operation, then any key is checked.
async fn store<C: DiscoveryClient>(path: &str, fail: fn(u32)) {
    concrete_entropy();
    let mut admin = C::new(path.to_string(), None).await.unwrap();
    let mut m = C::new(path.to_string(), None).await.unwrap();
    let mut now: Option<Vec<Vec<u8>>> = None;
    for _ in 0..vx::choose(deep(3, 4)) {
        let l = list(1 + vx::choose(2));
        let f = if vx::choose(2) == 1 { 1 + vx::choose(5) as u32 } else { 0 };
        let d = distinct(&l);
        let who = if vx::choose(2) == 0 { &mut admin } else { &mut m };
        fail(f);
        let r = who.set_whitelist(arcs(&l)).await;
        fail(0);
        if r.is_ok() { now = Some(l); vx::cover("set") }
        else {
            // a list with duplicates may be refused
            vx::check(f > 0 || !d, "whitelist-can-be-set");
            // the outcome of a failed call is the old or the new list: which, is seen from here on
            let probe = l[0].clone();
            let old = member(&now, &probe);
            let is = m.check_whitelist(&Arc::new(probe)).await.unwrap();
            if is != old || (now.is_none() && { let mut o = l[0].clone(); o.push(0); !m.check_whitelist(&Arc::new(o)).await.unwrap() }) { now = Some(l); vx::cover("took effect") } else { vx::cover("kept") }
        }
    }
    let k = vx::bytes(vx::choose(3));
    vx::check(m.check_whitelist(&Arc::new(k.clone())).await.unwrap() == member(&now, &k), "exactly-the-members");
    if now.is_none() { vx::cover("no list") }
}
vx_entry!(store_sql, { run(async { store::<Embedded>(SQL, sqlx::fail_at).await }) });
vx_entry!(store_redis, { run(async { store::<Redis>(RED, redis::fail_at).await }) });
/// While the list is replaced, a member of both is always admitted and a member of neither never.
async fn replaced<C: DiscoveryClient>(path: &str) {
    concrete_entropy();
    let mut admin = C::new(path.to_string(), None).await.unwrap();
    admin.set_whitelist(arcs(&[vec![1], vec![2]])).await.unwrap();
    races(deep(3, 4));
    let t = vx::rt::spawn(async move { admin.set_whitelist(arcs(&[vec![3], vec![1]])).await.unwrap(); }, |_| ());
    let seen: Rc<RefCell<u32>> = Default::default();
    for (k, may) in [(1u8, [true, true]), (9, [false, false])] {
        let mut c = C::new(path.to_string(), None).await.unwrap();
        let s = vx::AssertSend(seen.clone());
        vx::rt::spawn(async move {
            let s = s;
            for _ in 0..2 {
                match c.check_whitelist(&Arc::new(vec![k])).await {
                    Ok(x) => vx::check(x == may[0], "old-or-new-list"),
                    Err(_) => vx::fail("check-fails"),
                }
                *s.0.borrow_mut() += 1;
            }
        }, |_| ());
    }
    settle().await;
    vx::check(*seen.borrow() == 4, "all-checked");
    vx::cover("end");
}
vx_entry!(replaced_sql, { run(async { replaced::<Embedded>(SQL).await }) });
vx_entry!(replaced_redis, { run(async { replaced::<Redis>(RED).await }) });
/// A running broker with users, and lists over them.
vx_entry!(disconnects, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let mut d = disc().await;
        let u = [join(0, &uk(1), &[0]).await.unwrap(), join(0, &uk(2), &[0]).await.unwrap(), join(0, &uk(3), &[0]).await.unwrap()];
        settle().await;
        let mut allowed = [true; 3];
        // up to two updates, each seen by the broker within a minute
        for round in 0..2 {
            let set = vx::choose(if round == 0 { 8 } else { 9 });
            if set < 8 {
                let mut l: Vec<Vec<u8>> = vec![uk(9)];
                for i in 0..3 { if set >> i & 1 == 1 { l.push(uk(1 + i as u8)) } }
                d.set_whitelist(arcs(&l)).await.unwrap();
                for i in 0..3 { allowed[i] &= set >> i & 1 == 1; }
            }
            pass(61).await;
            for i in 0..3 { vx::check(u[i].is_closed() == !allowed[i], "closed-iff-not-whitelisted"); }
        }
        // those who stay are served as before
        for i in 0..3 { if allowed[i] {
            u[i].take();
            u[i].send(Message::Broadcast(Broadcast { topics: vec![0], message: vec![7] })).await;
            settle().await;
            for j in 0..3 { vx::check(u[j].take().len() == allowed[j] as usize, "others-served"); }
            vx::cover("stays");
            break;
        } }
        vx::cover("end");
    });
});
/// The check fails for some users: they stay, and are judged again a minute later.
vx_entry!(check_fails, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let mut d = disc().await;
        let u = [join(0, &uk(1), &[0]).await.unwrap(), join(0, &uk(2), &[0]).await.unwrap(), join(0, &uk(3), &[0]).await.unwrap()];
        settle().await;
        d.set_whitelist(arcs(&[uk(1)])).await.unwrap();
        // heartbeats use the store at 50 s, the whitelist task at 60 s
        pass(55).await;
        sqlx::fail_at(1 + vx::choose(9) as u32);
        pass(5).await;
        sqlx::fail_at(0);
        vx::check(!u[0].is_closed(), "members-stay");
        // one operation failed: that is the check of one user, the others are judged all the same
        let kept = u[1..].iter().filter(|x| !x.is_closed()).count();
        vx::check(kept <= 1, "one-failure-spares-one");
        if kept == 1 { vx::cover("kept") }
        pass(61).await;
        vx::check(!u[0].is_closed(), "members-stay");
        vx::check(u[1].is_closed() && u[2].is_closed(), "removed-next-time");
        vx::cover("end");
    });
});
