use sys::*;
use cdn_proto::discovery::redis::Redis;
const SQL: &str = "db";
const RED: &str = "redis://store";
fn secs() -> u64 { vx::clock::now_ns() / 1_000_000_000 }
const N: usize = 3;
/// What the store was told.
#[derive(Default)]
struct Told { load: [u64; N], until: [u64; N], permits: Vec<(usize, u64, u64)> }
impl Told {
    fn live(&self, b: usize) -> bool { self.until[b] > secs() }
    fn total(&self, b: usize) -> u64 { self.load[b] + self.permits.iter().filter(|p| p.0 == b && p.2 > secs()).count() as u64 }
}
async fn ask<C: DiscoveryClient>(t: &Told, m: &mut C, b: &mut [C; N]) {
    let r = m.get_with_least_connections().await;
    if (0..N).all(|i| !t.live(i)) { vx::check(r.is_err(), "no-broker-no-choice"); vx::cover("none"); }
    else {
        let Ok(r) = r else { vx::fail("a-broker-is-chosen") };
        let Some(c) = (0..N).position(|i| r == ident(i)) else { vx::fail("a-registered-broker") };
        vx::check(t.live(c), "chosen-is-live");
        for i in 0..N { if t.live(i) { vx::check(t.total(c) <= t.total(i), "chosen-has-the-least"); } }
        vx::cover("chosen");
    }
    for i in 0..N {
        let Ok(o) = b[i].get_other_brokers().await else { vx::fail("others-known") };
        for j in 0..N { vx::check(o.contains(&ident(j)) == (j != i && t.live(j)), "others-are-the-live-ones"); }
        vx::check(o.len() == (0..N).filter(|j| *j != i && t.live(*j)).count(), "others-are-brokers");
    }
}
async fn history<C: DiscoveryClient>(path: &str, steps: usize, load: fn() -> u64) {
    concrete_entropy();
    let mut m = C::new(path.to_string(), None).await.unwrap();
    let mut b: [C; N] = [C::new(path.to_string(), Some(ident(0))).await.unwrap(), C::new(path.to_string(), Some(ident(1))).await.unwrap(), C::new(path.to_string(), Some(ident(2))).await.unwrap()];
    let mut t = Told::default();
    // brokers 0 and 1 are up before the history starts, or just the first
    for i in 0..1 + vx::choose(2) { t.load[i] = load(); t.until[i] = secs() + 60; b[i].perform_heartbeat(t.load[i], Duration::from_secs(60)).await.unwrap(); }
    for _ in 0..steps {
        match vx::choose(4) {
            0 => { let i = vx::choose(N); t.load[i] = load(); t.until[i] = secs() + 60; b[i].perform_heartbeat(t.load[i], Duration::from_secs(60)).await.unwrap(); }
            1 => { pass([25, 61][vx::choose(2)]).await; }
            2 => {
                let i = vx::choose(N);
                let p = m.issue_permit(&ident(i), Duration::from_secs(30), vec![1]).await.unwrap();
                t.permits.push((i, p, secs() + 30));
                vx::cover("issued");
            }
            _ => {
                let Some(p) = t.permits.first().copied() else { continue };
                let _ = b[p.0].validate_permit(&ident(p.0), p.1).await;
                t.permits.remove(0);
                vx::cover("redeemed");
            }
        }
    }
    ask(&t, &mut m, &mut b).await;
    ask(&t, &mut m, &mut b).await;
}
vx_entry!(history_sql, { run(async { history::<Embedded>(SQL, deep(3, 4), || vx::u32() as u64).await }) });
vx_entry!(history_redis, { run(async { history::<Redis>(RED, deep(2, 3), || [1, 0, 10][vx::choose(3)]).await }) });
/// Failures of the store are reported, and do not change what is stored.
async fn faults<C: DiscoveryClient>(path: &str, fail: fn(u32), heal: fn()) {
    concrete_entropy();
    let mut m = C::new(path.to_string(), None).await.unwrap();
    let mut b: [C; N] = [C::new(path.to_string(), Some(ident(0))).await.unwrap(), C::new(path.to_string(), Some(ident(1))).await.unwrap(), C::new(path.to_string(), Some(ident(2))).await.unwrap()];
    let mut t = Told { load: [3, 1, 0], until: [secs() + 60, secs() + 60, 0], permits: Vec::new() };
    for i in 0..2 { b[i].perform_heartbeat(t.load[i], Duration::from_secs(60)).await.unwrap(); }
    fail(1 + vx::choose(8) as u32);
    match vx::choose(3) {
        0 => { if b[2].perform_heartbeat(0, Duration::from_secs(60)).await.is_ok() { t.until[2] = secs() + 60; vx::cover("registered") } else { vx::cover("not registered") } }
        1 => { if let Ok(r) = m.get_with_least_connections().await { vx::check(r == ident(1), "right-or-an-error"); vx::cover("answered") } else { vx::cover("reported") } }
        _ => { if let Ok(o) = b[2].get_other_brokers().await { vx::check(o.len() == 2, "right-or-an-error"); vx::cover("answered") } else { vx::cover("reported") } }
    }
    heal();
    ask(&t, &mut m, &mut b).await;
}
vx_entry!(faults_sql, { run(async { faults::<Embedded>(SQL, sqlx::fail_at, || sqlx::fail_at(0)).await }) });
vx_entry!(faults_redis, { run(async { faults::<Redis>(RED, redis::fail_at, || redis::fail_at(0)).await }) });
