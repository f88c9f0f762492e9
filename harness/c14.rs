use cdn_proto::message::*;
use cdn_proto::discovery::BrokerIdentifier;

fn some_bytes(max: usize) -> Vec<u8> { let n = vx::choose(max + 1); vx::bytes(n) }
/// any message: every variant, symbolic field values, every length up to `max`
fn any_message(max: usize) -> Message {
    match vx::choose(9) {
        0 => Message::AuthenticateWithKey(AuthenticateWithKey { public_key: some_bytes(max), timestamp: vx::u64(), signature: some_bytes(max) }),
        1 => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: vx::u64() }),
        2 => {
            let n = vx::choose(max + 1);
            let mut v = Vec::new();
            for _ in 0..n { let b = vx::u8(); vx::assume(b < 0x80); v.push(b); }
            Message::AuthenticateResponse(AuthenticateResponse { permit: vx::u64(), context: unsafe { String::from_utf8_unchecked(v) } })
        }
        3 => Message::Direct(Direct { recipient: some_bytes(max), message: some_bytes(max) }),
        4 => Message::Broadcast(Broadcast { topics: some_bytes(max), message: some_bytes(max) }),
        5 => Message::Subscribe(some_bytes(max)),
        6 => Message::Unsubscribe(some_bytes(max)),
        7 => Message::UserSync(some_bytes(max)),
        _ => Message::TopicSync(some_bytes(max)),
    }
}

/// field equality without a branch per byte
fn beq(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a.iter().zip(b).fold(true, |r, (x, y)| r & (x == y)) }
fn same(a: &Message, b: &Message) -> bool {
    match (a, b) {
        (Message::AuthenticateWithKey(x), Message::AuthenticateWithKey(y)) => (x.timestamp == y.timestamp) & beq(&x.public_key, &y.public_key) & beq(&x.signature, &y.signature),
        (Message::AuthenticateWithPermit(x), Message::AuthenticateWithPermit(y)) => x.permit == y.permit,
        (Message::AuthenticateResponse(x), Message::AuthenticateResponse(y)) => (x.permit == y.permit) & beq(x.context.as_bytes(), y.context.as_bytes()),
        (Message::Direct(x), Message::Direct(y)) => beq(&x.recipient, &y.recipient) & beq(&x.message, &y.message),
        (Message::Broadcast(x), Message::Broadcast(y)) => beq(&x.topics, &y.topics) & beq(&x.message, &y.message),
        (Message::Subscribe(x), Message::Subscribe(y)) | (Message::Unsubscribe(x), Message::Unsubscribe(y)) | (Message::UserSync(x), Message::UserSync(y)) | (Message::TopicSync(x), Message::TopicSync(y)) => beq(x, y),
        _ => false,
    }
}

vx_entry!(round_trip, {
    let m = any_message(if DEEP { 17 } else { 9 });
    let s = m.serialize();
    vx::check(s.is_ok(), "serialize-ok");
    let s = s.unwrap();
    let d = Message::deserialize(&s);
    vx::check(d.is_ok(), "deserialize-ok");
    let d = d.unwrap();
    vx::check(same(&m, &d), "round-trip");
    // deserializing depends on the bytes only: serializing again gives the same bytes
    let s2 = d.serialize().unwrap();
    vx::check(beq(&s, &s2), "stable-encoding");
    vx::cover("round-trip");
});

/// Nothing a peer can send makes the decoder panic, loop or read out of bounds.
vx_entry!(total, {
    let n = vx::choose(if DEEP { 35 } else { 21 });
    let b = vx::bytes(n);
    match Message::deserialize(&b) {
        Ok(_) => vx::cover("decoded"),
        Err(_) => vx::cover("rejected"),
    }
});

/// The same over a well-formed message with corrupted bytes and a truncated end.
vx_entry!(corrupt, {
    let m = match vx::choose(7) {
        0 => Message::AuthenticateWithKey(AuthenticateWithKey { public_key: vec![1, 2, 3], timestamp: 5, signature: vec![4; 9] }),
        1 => Message::AuthenticateResponse(AuthenticateResponse { permit: 7, context: "a/b".to_string() }),
        2 => Message::Direct(Direct { recipient: vec![1; 9], message: vec![2; 3] }),
        3 => Message::Broadcast(Broadcast { topics: vec![0, 1], message: vec![2; 3] }),
        4 => Message::Subscribe(vec![0, 1, 2]),
        5 => Message::UserSync(vec![1, 2]),
        _ => Message::AuthenticateWithPermit(AuthenticateWithPermit { permit: 77 }),
    };
    let mut s = m.serialize().unwrap();
    let k = if DEEP { 3 } else { 2 };
    let at = vx::choose(s.len());
    for i in at..(at + k).min(s.len()) { s[i] = vx::u8(); }
    if vx::bool() { let cut = vx::choose(s.len().min(9)); s.truncate(s.len() - cut); }
    match Message::deserialize(&s) {
        Ok(_) => vx::cover("decoded"),
        Err(_) => vx::cover("rejected"),
    }
});
