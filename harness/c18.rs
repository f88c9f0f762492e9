use sys::*;
use cdn_proto::discovery::redis::Redis;
const SQL: &str = "db";
const RED: &str = "redis://store";
struct Issued { broker: usize, permit: u64, key: Vec<u8>, until: u64, used: bool }
fn secs() -> u64 { vx::clock::now_ns() / 1_000_000_000 }
/// redeems `permit` at `broker`; `want` is what the store owes
async fn redeem<C: DiscoveryClient>(d: &mut C, broker: usize, permit: u64, want: Option<&[u8]>) {
    let r = d.validate_permit(&ident(broker), permit).await;
    match want {
        Some(k) => { vx::check(matches!(r, Ok(Some(ref x)) if beq(x, k)), "redeems-for-its-key"); vx::cover("redeemed") }
        // a number that cannot be a permit may be answered with an error
        None => { vx::check(!matches!(r, Ok(Some(_))), "nothing-else-redeems"); vx::cover("refused") }
    }
}
async fn history<C: DiscoveryClient>(path: &str, steps: usize) {
    concrete_entropy();
    // the marshal issues, each broker redeems through its own client
    let mut m = C::new(path.to_string(), None).await.unwrap();
    let mut b = [C::new(path.to_string(), Some(ident(0))).await.unwrap(), C::new(path.to_string(), Some(ident(1))).await.unwrap()];
    let mut all: Vec<Issued> = Vec::new();
    for step in 0..steps {
        match if step == 0 { 0 } else { vx::choose(3) } {
            0 => {
                let (broker, life) = (vx::choose(2), [5, 30][vx::choose(2)]);
                let key = vx::bytes([2, 0, 1][all.len() % 3]);
                let permit = m.issue_permit(&ident(broker), Duration::from_secs(life), key.clone()).await.unwrap();
                vx::check(all.iter().all(|i| i.used || i.permit != permit), "permits-differ");
                all.push(Issued { broker, permit, key, until: secs() + life, used: false });
            }
            1 => { pass([3, 11, 32][vx::choose(3)]).await; vx::cover("waited") }
            _ => {
                let (broker, i) = (vx::choose(2), vx::choose(all.len()));
                let ok = all[i].broker == broker && !all[i].used && secs() < all[i].until;
                let (p, k) = (all[i].permit, all[i].key.clone());
                redeem(&mut b[broker], broker, p, if ok { Some(&k[..]) } else { None }).await;
                if ok { all[i].used = true; }
            }
        }
    }
    for i in &all {
        redeem(&mut b[1 - i.broker], 1 - i.broker, i.permit, None).await;
        let ok = !i.used && secs() < i.until;
        redeem(&mut b[i.broker], i.broker, i.permit, if ok { Some(&i.key[..]) } else { None }).await;
        redeem(&mut b[i.broker], i.broker, i.permit, None).await;
    }
}
vx_entry!(history_sql, { run(async { history::<Embedded>(SQL, deep(4, 5)).await }) });
vx_entry!(history_redis, { run(async { history::<Redis>(RED, deep(4, 5)).await }) });
/// Numbers that were never issued.
vx_entry!(bogus_sql, {
    run(async {
        concrete_entropy();
        let mut d = Embedded::new(SQL.to_string(), None).await.unwrap();
        let a = d.issue_permit(&ident(0), Duration::from_secs(30), vec![1]).await.unwrap();
        let b = d.issue_permit(&ident(1), Duration::from_secs(30), vec![2]).await.unwrap();
        let x = vx::u64();
        redeem(&mut d, 0, x, if x == a { Some(&[1]) } else { None }).await;
        redeem(&mut d, 1, x, if x == b { Some(&[2]) } else { None }).await;
    });
});
vx_entry!(bogus_redis, {
    run(async {
        concrete_entropy();
        let mut d = Redis::new(RED.to_string(), None).await.unwrap();
        let a = d.issue_permit(&ident(0), Duration::from_secs(30), vec![1]).await.unwrap();
        let b = d.issue_permit(&ident(1), Duration::from_secs(30), vec![2]).await.unwrap();
        let x = [a, b, a + (1 << 32), a * 10, a / 10, 0, 1, u64::MAX][vx::choose(8)];
        redeem(&mut d, 0, x, if x == a { Some(&[1]) } else { None }).await;
        redeem(&mut d, 1, x, if x == b { Some(&[2]) } else { None }).await;
    });
});
/// Whatever the random numbers, a permit is never mistaken for a refusal or an acknowledgement.
fn first_two_any() {
    static N: vx::Global<u32> = vx::Global::new(0);
    fn next() -> u64 { *N.get() += 1; if *N.get() <= 2 { vx::u64() } else { 5000 + *N.get() as u64 } }
    rand::set_source(Some(next));
}
vx_entry!(status_sql, {
    run(async {
        first_two_any();
        let mut d = Embedded::new(SQL.to_string(), None).await.unwrap();
        let p = d.issue_permit(&ident(0), Duration::from_secs(30), vec![1]).await.unwrap();
        vx::check(p > 1, "permit-is-not-a-status");
        redeem(&mut d, 0, p, Some(&[1])).await;
        vx::cover("end");
    });
});
vx_entry!(status_redis, {
    run(async {
        static N: vx::Global<u32> = vx::Global::new(0);
        fn next() -> u64 { *N.get() += 1; if *N.get() <= 2 { [0, 1, 2, 0xFFFF_FFFF, 1 << 32, u64::MAX][vx::choose(6)] } else { 5000 } }
        rand::set_source(Some(next));
        let mut d = Redis::new(RED.to_string(), None).await.unwrap();
        let p = d.issue_permit(&ident(0), Duration::from_secs(30), vec![1]).await.unwrap();
        vx::check(p > 1, "permit-is-not-a-status");
        redeem(&mut d, 0, p, Some(&[1])).await;
        vx::cover("end");
    });
});
/// One permit redeemed by several connections at once.
async fn at_once<C: DiscoveryClient>(path: &str) {
    concrete_entropy();
    let mut m = C::new(path.to_string(), None).await.unwrap();
    let p = m.issue_permit(&ident(0), Duration::from_secs(30), vec![1]).await.unwrap();
    let wins: Rc<RefCell<u32>> = Default::default();
    races(deep(2, 3));
    for _ in 0..3 {
        let w = vx::AssertSend(wins.clone());
        let mut c = C::new(path.to_string(), Some(ident(0))).await.unwrap();
        vx::rt::spawn(async move { let w = w; if matches!(c.validate_permit(&ident(0), p).await, Ok(Some(_))) { *w.0.borrow_mut() += 1; } }, |_| ());
    }
    settle().await;
    vx::check(*wins.borrow() == 1, "redeems-once");
    vx::cover("end");
}
vx_entry!(at_once_sql, { run(async { at_once::<Embedded>(SQL).await }) });
vx_entry!(at_once_redis, { run(async { at_once::<Redis>(RED).await }) });
/// A number that is drawn again while a permit of that number is outstanding does not take that
/// permit over: its owner can still redeem it.
vx_entry!(drawn_again_sql, {
    run(async {
        static N: vx::Global<u32> = vx::Global::new(0);
        fn next() -> u64 { *N.get() += 1; if *N.get() <= 3 { 7000 } else { 7000 + *N.get() as u64 } }
        rand::set_source(Some(next));
        let mut d = Embedded::new(SQL.to_string(), None).await.unwrap();
        let a = d.issue_permit(&ident(0), Duration::from_secs(30), vec![1]).await.unwrap();
        if vx::choose(2) == 1 { pass(11).await; }
        let other = vx::choose(2);
        // (the marshal answers a failure with a refusal, and the client tries again)
        let b = d.issue_permit(&ident(other), Duration::from_secs(30), vec![2]).await;
        if let Ok(b) = b { vx::check(a != b, "permits-differ"); }
        redeem(&mut d, 0, a, Some(&[1])).await;
        redeem(&mut d, 0, a, None).await;
        if let Ok(b) = b { redeem(&mut d, other, b, Some(&[2])).await; }
        vx::cover("end");
    });
});
