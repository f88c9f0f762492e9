use sys::*;
use std::hash::{Hash, Hasher};
/// every text of up to `n` bytes (ASCII, or with a two-byte character in front)
fn text(n: usize) -> String {
    let mut v: Vec<u8> = Vec::new();
    if vx::choose(2) == 1 { let b = vx::u8(); vx::assume(b & 0xC0 == 0x80); v.extend([0xC3, b]); }
    for _ in 0..vx::choose(n + 1) { let b = vx::u8(); vx::assume(b < 0x80); v.push(b); }
    unsafe { String::from_utf8_unchecked(v) }
}
fn slashes(s: &str) -> usize { s.as_bytes().iter().filter(|b| **b == b'/').count() }
fn id(p: &str, q: &str) -> BrokerIdentifier { BrokerIdentifier { public_advertise_endpoint: p.to_string(), private_advertise_endpoint: q.to_string() } }
fn same(a: &BrokerIdentifier, b: &BrokerIdentifier) -> bool { beq(a.public_advertise_endpoint.as_bytes(), b.public_advertise_endpoint.as_bytes()) & beq(a.private_advertise_endpoint.as_bytes(), b.private_advertise_endpoint.as_bytes()) }
struct H(u64);
impl Hasher for H { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.rotate_left(8) ^ u64::from(*x) } } }
fn hash_of(a: &BrokerIdentifier) -> u64 { let mut h = H(0); a.hash(&mut h); h.0 }
vx_entry!(round_trip, {
    let a = id(&text(deep(3, 4)), &text(deep(3, 4)));
    if slashes(&a.public_advertise_endpoint) + slashes(&a.private_advertise_endpoint) == 0 {
        let b = BrokerIdentifier::try_from(a.to_string());
        vx::check(b.is_ok_and(|b| same(&a, &b)), "survives");
        vx::cover("survives");
    } else if let Ok(b) = BrokerIdentifier::try_from(a.to_string()) {
        vx::check(same(&a, &b), "never-another-identity");
    } else { vx::cover("has no textual form") }
});
vx_entry!(parse, {
    let t = text(deep(5, 7));
    match BrokerIdentifier::try_from(t.clone()) {
        Ok(a) => { vx::check(beq(a.to_string().as_bytes(), t.as_bytes()), "only-what-was-written"); vx::check(slashes(&t) == 1, "only-what-was-written"); vx::cover("parsed") }
        Err(_) => { vx::check(slashes(&t) != 1, "every-form-is-read"); vx::cover("refused") }
    }
});
vx_entry!(order, {
    fn short() -> String { let mut v: Vec<u8> = Vec::new(); for _ in 0..vx::choose(3) { let b = vx::u8(); vx::assume(b < 0x80); v.push(b); } unsafe { String::from_utf8_unchecked(v) } }
    let x = [id(&short(), &short()), id(&short(), &short())];
    let (a, b) = (&x[0], &x[1]);
    vx::check((a == b) == same(a, b), "equal-only-if-the-same");
    vx::check((a.cmp(b) == std::cmp::Ordering::Equal) == same(a, b), "order-tells-identities-apart");
    vx::check(a.cmp(b) == b.cmp(a).reverse(), "order-is-antisymmetric");
    vx::check(a.partial_cmp(b) == Some(a.cmp(b)) && (a < b) == (a.cmp(b) == std::cmp::Ordering::Less) && (a >= b) == (b <= a), "order-is-one-order");
    if a == b { vx::check(hash_of(a) == hash_of(b), "equal-hash"); vx::cover("equal") } else { vx::cover("different") }
    // as other brokers receive it
    let bytes = rkyv::to_bytes::<_, 64>(a).unwrap();
    let c: BrokerIdentifier = rkyv::from_bytes(&bytes).unwrap_or_else(|_| vx::fail("survives"));
    vx::check(same(a, &c) && c.cmp(b) == a.cmp(b), "survives");
});
vx_entry!(transitive, {
    let one = || { let b = vx::u8(); vx::assume(b < 0x80); unsafe { String::from_utf8_unchecked(vec![b]) } };
    let x = [id(&one(), &one()), id(&one(), &one()), id(&one(), &one())];
    if x[0] <= x[1] && x[1] <= x[2] { vx::check(x[0] <= x[2], "order-is-transitive"); vx::cover("ascending") }
});
vx_entry!(through_discovery, {
    run(async {
        concrete_entropy();
        let short = || { let mut v: Vec<u8> = Vec::new(); for _ in 0..1 + vx::choose(2) { let b = vx::u8(); vx::assume(b < 0x80 && b != b'/'); v.push(b); } unsafe { String::from_utf8_unchecked(v) } };
        let a = id(&short(), &short());
        let me = id("u99", "b99");
        let redis = vx::choose(2) == 1;
        let (others, least) = if redis {
            use cdn_proto::discovery::redis::Redis;
            let mut d = Redis::new("redis://x".to_string(), Some(a.clone())).await.expect("redis");
            vx::check(d.perform_heartbeat(1, Duration::from_secs(60)).await.is_ok(), "heartbeat");
            let mut e = Redis::new("redis://x".to_string(), Some(me.clone())).await.expect("redis");
            (e.get_other_brokers().await, e.get_with_least_connections().await)
        } else {
            let mut d = Embedded::new(DB.to_string(), Some(a.clone())).await.expect("discovery");
            vx::check(d.perform_heartbeat(1, Duration::from_secs(60)).await.is_ok(), "heartbeat");
            let mut e = Embedded::new(DB.to_string(), Some(me.clone())).await.expect("discovery");
            (e.get_other_brokers().await, e.get_with_least_connections().await)
        };
        let others: Vec<BrokerIdentifier> = others.unwrap_or_else(|_| vx::fail("survives")).into_iter().collect();
        vx::check(others.len() == 1 && same(&others[0], &a), "survives");
        vx::check(least.is_ok_and(|l| same(&l, &a)), "survives");
        vx::cover("end");
    });
});
