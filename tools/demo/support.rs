//! A CDN of real brokers in one process: in-memory transport, in-memory discovery, a toy signature scheme.
#![allow(dead_code, unused_imports)]
pub use std::{collections::{HashMap, HashSet}, sync::Arc, time::Duration};
use std::sync::Mutex;

pub use cdn_broker::{Broker, Config};
pub use cdn_proto::{
    connection::{
        auth::{broker::BrokerAuth, marshal::MarshalAuth, user::UserAuth},
        limiter::Limiter,
        protocols::{memory::Memory, Connection, Listener as _, Protocol as _, UnfinalizedConnection as _},
        Bytes, UserPublicKey,
    },
    crypto::signature::{KeyPair, Namespace, Serializable, SignatureScheme},
    def::{ConnectionDef, NoMessageHook, RunDef, TestTopic},
    discovery::{BrokerIdentifier, DiscoveryClient},
    error::{Error, Result},
    message::{Broadcast, Direct, Message},
};
pub use tokio::{spawn, task::JoinHandle, time::{sleep, timeout}};

/// "Signatures" that name the signer and what was signed.
pub struct Toy;
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Pk(pub u64);
impl Serializable for Pk {
    fn serialize(&self) -> anyhow::Result<Vec<u8>> { Ok(self.0.to_le_bytes().to_vec()) }
    fn deserialize(b: &[u8]) -> anyhow::Result<Self> { Ok(Self(u64::from_le_bytes(b.try_into()?))) }
}
impl SignatureScheme for Toy {
    type PrivateKey = u64;
    type PublicKey = Pk;
    fn sign(k: &u64, namespace: &'static str, message: &[u8]) -> anyhow::Result<Vec<u8>> {
        Ok([&k.to_le_bytes()[..], namespace.as_bytes(), message].concat())
    }
    fn verify(k: &Pk, namespace: &'static str, message: &[u8], signature: &[u8]) -> bool {
        signature == [&k.0.to_le_bytes()[..], namespace.as_bytes(), message].concat()
    }
}
pub fn keys(k: u64) -> KeyPair<Toy> { KeyPair { public_key: Pk(k), private_key: k } }
/// A user's key as the brokers know it
pub fn user_key(k: u64) -> Vec<u8> { k.to_le_bytes().to_vec() }

#[derive(Clone)]
pub struct Conn;
impl ConnectionDef for Conn { type Scheme = Toy; type Protocol = Memory; type MessageHook = NoMessageHook; }
pub struct Def;
impl RunDef for Def { type Broker = Conn; type User = Conn; type DiscoveryClientType = Disc; type Topic = TestTopic; }

/// A discovery service that lives in this process, shared by all that name the same endpoint.
#[derive(Default)]
pub struct State {
    pub brokers: HashMap<BrokerIdentifier, u64>,
    pub permits: HashMap<u64, (BrokerIdentifier, Vec<u8>)>,
    pub whitelist: Option<Vec<Vec<u8>>>,
    pub next: u64,
    /// How many of the next calls fail
    pub fail: usize,
}
static WORLD: Mutex<Option<HashMap<String, Arc<Mutex<State>>>>> = Mutex::new(None);
#[derive(Clone)]
pub struct Disc { pub state: Arc<Mutex<State>>, pub me: Option<BrokerIdentifier> }
impl Disc {
    fn go(&self) -> Result<std::sync::MutexGuard<'_, State>> {
        let mut s = self.state.lock().unwrap();
        if s.fail > 0 { s.fail -= 1; return Err(Error::Connection("discovery is down".into())); }
        Ok(s)
    }
}
#[async_trait::async_trait]
impl DiscoveryClient for Disc {
    async fn new(path: String, me: Option<BrokerIdentifier>) -> Result<Self> {
        let state = WORLD.lock().unwrap().get_or_insert_default().entry(path).or_default().clone();
        Ok(Self { state, me })
    }
    async fn perform_heartbeat(&mut self, n: u64, _: Duration) -> Result<()> {
        let me = self.me.clone().unwrap();
        self.go()?.brokers.insert(me, n);
        Ok(())
    }
    async fn get_with_least_connections(&mut self) -> Result<BrokerIdentifier> {
        let s = self.go()?;
        s.brokers.iter().min_by_key(|(_, n)| **n).map(|(b, _)| b.clone()).ok_or(Error::Connection("none".into()))
    }
    async fn get_other_brokers(&mut self) -> Result<HashSet<BrokerIdentifier>> {
        let s = self.go()?;
        Ok(s.brokers.keys().filter(|b| Some(*b) != self.me.as_ref()).cloned().collect())
    }
    async fn issue_permit(&mut self, for_broker: &BrokerIdentifier, _: Duration, key: Vec<u8>) -> Result<u64> {
        let mut s = self.go()?;
        s.next += 1;
        let permit = 1000 + s.next;
        s.permits.insert(permit, (for_broker.clone(), key));
        Ok(permit)
    }
    async fn validate_permit(&mut self, broker: &BrokerIdentifier, permit: u64) -> Result<Option<Vec<u8>>> {
        let mut s = self.go()?;
        if s.permits.get(&permit).is_some_and(|(b, _)| b == broker) {
            return Ok(s.permits.remove(&permit).map(|(_, k)| k));
        }
        Ok(None)
    }
    async fn set_whitelist(&mut self, users: Vec<UserPublicKey>) -> Result<()> {
        self.go()?.whitelist = Some(users.into_iter().map(|u| u.to_vec()).collect());
        Ok(())
    }
    async fn check_whitelist(&mut self, user: &UserPublicKey) -> Result<bool> {
        let s = self.go()?;
        Ok(s.whitelist.as_ref().is_none_or(|w| w.contains(&user.to_vec())))
    }
}
pub async fn disc(path: &str) -> Disc { Disc::new(path.into(), None).await.unwrap() }

pub fn ident(i: u8) -> BrokerIdentifier {
    BrokerIdentifier { public_advertise_endpoint: format!("pub{i}"), private_advertise_endpoint: format!("priv{i}") }
}
pub const BROKERS_KEY: u64 = 7;
/// Starts broker `i`; it runs until the handle is aborted.
pub async fn broker(i: u8, path: &str) -> JoinHandle<Result<()>> {
    let id = ident(i);
    let broker = Broker::<Def>::new(Config {
        public_advertise_endpoint: id.public_advertise_endpoint.clone(),
        public_bind_endpoint: id.public_advertise_endpoint.clone(),
        private_advertise_endpoint: id.private_advertise_endpoint.clone(),
        private_bind_endpoint: id.private_advertise_endpoint.clone(),
        metrics_bind_endpoint: None,
        discovery_endpoint: path.into(),
        keypair: keys(BROKERS_KEY),
        ca_cert_path: None,
        ca_key_path: None,
        global_memory_pool_size: None,
        user_message_hook: NoMessageHook,
        broker_message_hook: NoMessageHook,
    }).await.unwrap();
    spawn(broker.start())
}
/// Connects user `k` to broker `i` with a permit of its own.
pub async fn user(k: u64, i: u8, topics: &[u8], path: &str) -> Connection {
    let permit = disc(path).await.issue_permit(&ident(i), Duration::from_secs(30), user_key(k)).await.unwrap();
    let c = Memory::connect(&ident(i).public_advertise_endpoint, true, Limiter::none()).await.unwrap();
    UserAuth::<Conn>::authenticate_with_broker(&c, permit, topics.iter().copied().collect()).await.unwrap();
    sleep(Duration::from_millis(100)).await;
    c
}
/// Connects to broker `i` as the broker `as_`, and proves it.
pub async fn peer(as_: u8, i: u8) -> Connection {
    let c = Memory::connect(&ident(i).private_advertise_endpoint, true, Limiter::none()).await.unwrap();
    let key = keys(BROKERS_KEY);
    BrokerAuth::<Def>::authenticate_with_broker(&c, &key).await.unwrap();
    BrokerAuth::<Def>::verify_broker(&c, &ident(as_), &key.public_key).await.unwrap();
    sleep(Duration::from_millis(100)).await;
    c
}
/// The next message, if one arrives within `ms`; `Err` if the connection ends.
pub async fn next(c: &Connection, ms: u64) -> std::result::Result<Option<Message>, ()> {
    match timeout(Duration::from_millis(ms), c.recv_message()).await {
        Err(_) => Ok(None),
        Ok(Ok(m)) => Ok(Some(m)),
        Ok(Err(_)) => Err(()),
    }
}
pub async fn closed(c: &Connection) -> bool {
    loop { match next(c, 2000).await { Ok(None) => return false, Ok(_) => {}, Err(()) => return true } }
}
pub async fn secs(n: u64) { sleep(Duration::from_secs(n)).await }
pub fn direct(to: u64, m: &[u8]) -> Message { Message::Direct(Direct { recipient: user_key(to), message: m.to_vec() }) }
pub fn broadcast(topics: &[u8], m: &[u8]) -> Message { Message::Broadcast(Broadcast { topics: topics.to_vec(), message: m.to_vec() }) }
