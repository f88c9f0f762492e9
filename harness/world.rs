
/// A marshal ("m") and a broker ("u0") played by the harness, and a real client.
pub mod world {
    use super::sys::*;
    pub use super::sys;
    pub use cdn_client::{Client, Config as CConfig};
    use cdn_proto::connection::protocols::{Listener, UnfinalizedConnection};
    use cdn_proto::crypto::signature::{Namespace, SignatureScheme};
    use cdn_proto::message::AuthenticateResponse;
    use std::cell::Cell;

    #[derive(Clone, Copy, PartialEq, Debug)]
    pub enum Mode { Ok, Refuse, Silent, Drop }
    pub const MODES: [Mode; 4] = [Mode::Ok, Mode::Refuse, Mode::Silent, Mode::Drop];
    /// a connection the client made to the broker
    pub struct Session { pub inbox: Inbox, pub announced: Vec<u8> }
    pub struct World {
        pub marshal: Cell<Mode>, pub broker: Cell<Mode>,
        /// connections made to the marshal, to the broker
        pub asked: Cell<u32>, pub came: Cell<u32>,
        /// the client is in a handshake with the marshal
        pub busy: Cell<bool>,
        pub sessions: RefCell<Vec<Session>>, permits: RefCell<Vec<u64>>,
    }
    pub type C = TestingConnection<Memory>;
    pub async fn world() -> Rc<World> {
        concrete_entropy();
        let w = Rc::new(World { marshal: Cell::new(Mode::Ok), broker: Cell::new(Mode::Ok), asked: Cell::new(0), came: Cell::new(0), busy: Cell::new(false), sessions: Default::default(), permits: Default::default() });
        let (m, b) = (listen("m").await, listen("u0").await);
        let ww = w.clone();
        vx::rt::spawn(async move {
            while let Ok(u) = m.accept().await {
                let w = ww.clone();
                let Ok(c) = u.finalize(Limiter::none()).await else { continue };
                w.asked.set(w.asked.get() + 1);
                vx::check(!w.busy.replace(true), "one-attempt-at-a-time");
                vx::rt::spawn(async move {
                    let Ok(Message::AuthenticateWithKey(a)) = c.recv_message().await else { w.busy.set(false); return };
                    vx::check(a.public_key == uk(1) && <BLS as SignatureScheme>::verify(&key(1).public_key, Namespace::UserMarshalAuth.as_str(), &a.timestamp.to_le_bytes(), &a.signature), "proves-its-key");
                    let mode = w.marshal.get();
                    if mode == Mode::Silent { while c.recv_message_raw().await.is_ok() {} }
                    w.busy.set(false);
                    let answer = match mode {
                        Mode::Ok => { let p = 1000 + w.asked.get() as u64; w.permits.borrow_mut().push(p); AuthenticateResponse { permit: p, context: "u0".to_string() } }
                        Mode::Refuse => AuthenticateResponse { permit: 0, context: "no".to_string() },
                        Mode::Silent | Mode::Drop => return,
                    };
                    let _ = c.send_message(Message::AuthenticateResponse(answer)).await;
                    let _ = c.soft_close().await;
                }, |_| ());
            }
        }, |_| ());
        let ww = w.clone();
        vx::rt::spawn(async move {
            while let Ok(u) = b.accept().await {
                let w = ww.clone();
                let Ok(c) = u.finalize(Limiter::none()).await else { continue };
                w.came.set(w.came.get() + 1);
                vx::rt::spawn(async move {
                    let Ok(Message::AuthenticateWithPermit(a)) = c.recv_message().await else { return };
                    let known = w.permits.borrow().contains(&a.permit);
                    vx::check(known, "permit-of-the-marshal-used-once");
                    w.permits.borrow_mut().retain(|p| *p != a.permit);
                    match w.broker.get() {
                        Mode::Ok => {}
                        Mode::Refuse => { let _ = c.send_message(Message::AuthenticateResponse(AuthenticateResponse { permit: 0, context: "no".to_string() })).await; let _ = c.soft_close().await; return }
                        Mode::Silent => { while c.recv_message_raw().await.is_ok() {} return }
                        Mode::Drop => return,
                    }
                    let _ = c.send_message(Message::AuthenticateResponse(AuthenticateResponse { permit: 1, context: String::new() })).await;
                    let Ok(Message::Subscribe(t)) = c.recv_message().await else { return };
                    w.sessions.borrow_mut().push(Session { inbox: Inbox::new(c), announced: t });
                }, |_| ());
            }
        }, |_| ());
        w
    }
    pub fn client(topics: &[u8]) -> Client<C> {
        Client::new(CConfig { endpoint: "m".to_string(), use_local_authority: true, keypair: key(1), subscribed_topics: topics.to_vec() })
    }
    impl World {
        /// the broker drops the client's newest connection
        pub fn lose(&self) { if let Some(s) = self.sessions.borrow_mut().pop() { s.inbox.leave(); } }
        /// what arrived on the newest connection
        pub fn got(&self) -> Vec<Message> { self.sessions.borrow().last().map_or(Vec::new(), |s| s.inbox.take().iter().map(|m| Message::deserialize(m).unwrap_or_else(|_| vx::fail("client-sends-messages"))).collect()) }
        pub fn connected(&self) -> bool { self.sessions.borrow().last().is_some_and(|s| !s.inbox.is_closed()) }
    }
    /// a result that a spawned call leaves behind
    pub fn call<T: 'static, F: std::future::Future<Output = T> + 'static>(f: F) -> Rc<RefCell<Option<T>>> {
        let out: Rc<RefCell<Option<T>>> = Default::default();
        let o = out.clone();
        vx::rt::spawn(async move { let r = f.await; *o.borrow_mut() = Some(r); }, |_| ());
        out
    }
    pub fn broadcast() -> Message { Message::Broadcast(Broadcast { topics: vec![0], message: vec![7] }) }
}
