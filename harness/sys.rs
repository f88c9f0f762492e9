/// Building blocks for whole-system harnesses: real brokers, real discovery, real connections, one
/// virtual network.
pub mod sys {
    pub use super::*;
    pub use cdn_broker::{Broker, Config};
    pub use cdn_proto::connection::{auth::user::UserAuth, limiter::Limiter, protocols::{memory::Memory, Connection, Protocol}, Bytes, UserPublicKey};
    pub use cdn_proto::crypto::{rng::DeterministicRng, signature::KeyPair};
    pub use cdn_proto::def::{NoMessageHook, TestingConnection, TestingRunDef};
    pub use cdn_proto::discovery::{embedded::Embedded, BrokerIdentifier, DiscoveryClient};
    pub use cdn_proto::message::{Broadcast, Direct, Message};
    pub use jf_signature::{bls_over_bn254::BLSOverBN254CurveSignatureScheme as BLS, SignatureScheme as _};
    pub use std::cell::RefCell;
    pub use std::rc::Rc;

    pub fn deep<T>(quick: T, thorough: T) -> T { if DEEP { thorough } else { quick } }
    pub type D = TestingRunDef<Memory, Memory>;
    pub const DB: &str = "db";

    /// permits (and other entropy) are distinct concrete numbers
    pub fn concrete_entropy() {
        static N: vx::Global<u64> = vx::Global::new(1000);
        fn next() -> u64 { *N.get() += 1; *N.get() }
        rand::set_source(Some(next));
    }
    pub fn key(seed: u64) -> KeyPair<BLS> {
        let (private_key, public_key) = BLS::key_gen(&(), &mut DeterministicRng(seed)).unwrap();
        KeyPair { public_key, private_key }
    }
    pub fn ident(i: usize) -> BrokerIdentifier { BrokerIdentifier { public_advertise_endpoint: format!("u{i}"), private_advertise_endpoint: format!("b{i}") } }
    pub async fn broker_with(i: usize, seed: u64) -> Broker<D> {
        Broker::new(Config {
            public_advertise_endpoint: format!("u{i}"), public_bind_endpoint: format!("u{i}"), private_advertise_endpoint: format!("b{i}"), private_bind_endpoint: format!("b{i}"),
            metrics_bind_endpoint: None, discovery_endpoint: DB.to_string(), keypair: key(seed), ca_cert_path: None, ca_key_path: None,
            global_memory_pool_size: None, user_message_hook: NoMessageHook, broker_message_hook: NoMessageHook,
        }).await.expect("broker")
    }
    /// a running broker
    pub async fn broker(i: usize) { let b = broker_with(i, 7).await; tokio::spawn(async move { let _ = b.start().await; }); }
    pub async fn disc() -> Embedded { Embedded::new(DB.to_string(), None).await.expect("discovery") }
    /// let everything that can happen without time passing happen
    pub async fn settle() { vx::rt::idle().await }
    pub async fn pass(secs: u64) { tokio::time::sleep(Duration::from_secs(secs)).await; settle().await }

    /// From now on up to `n` times a task may be held back, at any point where it is about to run or
    /// about to take a lock, until nothing else can run
    pub fn races(n: u32) { let r = vx::rt::rt(); r.stall_budget = n; }

    /// The receiving end of a connection: everything that arrived, in order.
    pub struct Inbox { pub conn: Connection, pub got: Rc<RefCell<Vec<Vec<u8>>>>, pub closed: Rc<RefCell<bool>>, pub reader: Arc<vx::rt::Task> }
    impl Inbox {
        pub fn new(conn: Connection) -> Self {
            let (got, closed): (Rc<RefCell<Vec<Vec<u8>>>>, Rc<RefCell<bool>>) = Default::default();
            let (g, c) = (vx::AssertSend(got.clone()), vx::AssertSend(closed.clone()));
            let c2 = conn.clone();
            let reader = vx::rt::spawn(async move {
                let (g, c) = (g, c);
                while let Ok(m) = conn.recv_message_raw().await { g.0.borrow_mut().push(m.to_vec()); }
                *c.0.borrow_mut() = true;
            }, |_| ());
            Inbox { conn: c2, got, closed, reader }
        }
        pub fn take(&self) -> Vec<Vec<u8>> { std::mem::take(&mut *self.got.borrow_mut()) }
        pub fn is_closed(&self) -> bool { *self.closed.borrow() }
        /// goes away without a word
        pub fn leave(self) { self.reader.abort(); }
        pub async fn send(&self, m: Message) -> bool { self.conn.send_message(m).await.is_ok() }
    }
    /// user `k` joins broker `b`: the discovery service issues the permit, the real user handshake runs
    pub async fn join(b: usize, k: &[u8], topics: &[u8]) -> Option<Inbox> {
        let mut d = disc().await;
        let permit = d.issue_permit(&ident(b), Duration::from_secs(30), k.to_vec()).await.expect("permit");
        let conn = Memory::connect(&format!("u{b}"), true, Limiter::none()).await.map_err(|e| vx::note(&format!("connect failed: {e}"), 0)).ok()?;
        UserAuth::<TestingConnection<Memory>>::authenticate_with_broker(&conn, permit, topics.iter().copied().collect()).await.map_err(|e| vx::note(&format!("join failed: {e}"), 0)).ok()?;
        Some(Inbox::new(conn))
    }
    /// the harness itself plays broker `i`, which dialled broker `to` (both hold key `seed`)
    pub async fn peer_with(to: usize, i: usize, seed: u64) -> Option<Inbox> {
        use cdn_proto::connection::auth::broker::BrokerAuth;
        let conn = Memory::connect(&format!("b{to}"), true, Limiter::none()).await.ok()?;
        BrokerAuth::<D>::authenticate_with_broker(&conn, &key(seed)).await.ok()?;
        BrokerAuth::<D>::verify_broker(&conn, &ident(i), &key(seed).public_key).await.ok()?;
        Some(Inbox::new(conn))
    }
    pub async fn peer(to: usize, i: usize) -> Inbox { peer_with(to, i, 7).await.unwrap() }
    pub async fn listen(endpoint: &str) -> <Memory as Protocol>::Listener {
        use cdn_proto::crypto::tls::{generate_cert_from_ca, load_ca};
        let (cert, key) = load_ca(None, None).unwrap();
        let (cert, key) = generate_cert_from_ca(&cert, &key).unwrap();
        Memory::bind(endpoint, cert, key).await.unwrap()
    }
    /// every connection made to `endpoint`
    pub async fn answering(endpoint: &str) -> Rc<RefCell<Vec<Inbox>>> {
        use cdn_proto::connection::protocols::{Listener, UnfinalizedConnection};
        let l = listen(endpoint).await;
        let calls: Rc<RefCell<Vec<Inbox>>> = Default::default();
        let c = vx::AssertSend(calls.clone());
        vx::rt::spawn(async move {
            let c = c;
            while let Ok(u) = l.accept().await { if let Ok(x) = u.finalize(Limiter::none()).await { c.0.borrow_mut().push(Inbox::new(x)); } }
        }, |_| ());
        calls
    }
    use cdn_broker::vx_access::{DirectMap, SubscriptionStatus, TopicSyncMap};
    /// what broker `i` announces: these users are mine
    pub fn user_sync(i: usize, users: &[Vec<u8>]) -> Message {
        let mut m = DirectMap::new(ident(i));
        for u in users { m.insert(Arc::new(u.clone()), ident(i)); }
        Message::UserSync(rkyv::to_bytes::<_, 256>(&m.diff()).unwrap().to_vec())
    }
    /// what a broker announces: my users are interested in these topics
    pub fn topic_sync(topics: &[u8]) -> Message {
        let mut m = TopicSyncMap::new(0);
        for t in topics { m.insert(*t, SubscriptionStatus::Subscribed); }
        Message::TopicSync(rkyv::to_bytes::<_, 256>(&m.diff()).unwrap().to_vec())
    }
    /// only what users receive in normal operation, i.e. no sync traffic
    pub fn payloads(v: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
        v.into_iter().filter(|m| !matches!(Message::deserialize(m), Ok(Message::UserSync(_) | Message::TopicSync(_)))).collect()
    }
    /// the serialized public key of user `i` (any distinct byte strings would do, but it must parse)
    pub fn uk(i: u8) -> Vec<u8> { vec![0x4B, i] }
    pub fn beq(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & (x == y)) }
    pub fn run<F: std::future::Future<Output = ()>>(f: F) { if vx::rt::block_on(f).is_none() { vx::fail("stuck") } }
}
