use sys::*;
use cdn_broker::vx_access::{Connections, DirectMap as M, TopicSyncMap as T};
fn k(i: u8) -> UserPublicKey { Arc::new(uk(i)) }
/// over the wire
fn wire(m: M) -> M { rkyv::from_bytes(&rkyv::to_bytes::<_, 256>(&m).unwrap()).unwrap() }
fn wire_t(m: T) -> T { rkyv::from_bytes(&rkyv::to_bytes::<_, 256>(&m).unwrap()).unwrap() }
fn handle() -> tokio::task::AbortHandle { tokio::spawn(async {}).abort_handle() }
fn knows(a: &Connections, b: &Connections) -> bool { (0..2).all(|i| a.get_broker_identifier_of_user(&k(i)) == b.get_broker_identifier_of_user(&k(i))) }

/// One broker whose users come and go, and one that connects to it (and gets a full sync) at any time, any
/// number of times: after the last partial sync the second knows exactly what the first does.
vx_entry!(one_writer, {
    // the reader's identity is the larger or the smaller one
    let r = 2 * vx::choose(2);
    let (mut w, mut rd) = (Connections::new(ident(1)), Connections::new(ident(r)));
    for _ in 0..(if DEEP { 7 } else { 6 }) {
        match vx::choose(5) {
            u @ (0 | 1) => w.add_user(&k(u as u8), Connection::new_test(), &[], handle()),
            2 => w.remove_user(k(0), "left"),
            3 => if let Some(m) = w.get_partial_user_sync() { rd.apply_user_sync(wire(m)); vx::cover("partial"); },
            _ => if let Some(m) = w.get_full_user_sync() { rd.apply_user_sync(wire(m)); vx::cover("full"); },
        }
    }
    if let Some(m) = w.get_partial_user_sync() { rd.apply_user_sync(wire(m)); }
    vx::check(knows(&w, &rd), "reader-knows-what-writer-knows");
    if w.get_broker_identifier_of_user(&k(0)).is_some() { vx::cover("present") } else { vx::cover("absent") }
    // what is known already changes nothing
    if let Some(m) = w.get_full_user_sync() { rd.apply_user_sync(wire(m)); }
    vx::check(knows(&w, &rd), "idempotent");
    // nor does hearing one's own state from others
    let users = w.num_users();
    if let Some(m) = rd.get_full_user_sync() { w.apply_user_sync(wire(m)); }
    vx::check(w.num_users() == users && knows(&w, &rd), "echo-changes-nothing");
});
/// Topic announcements of one broker may arrive at another duplicated and in any order: once all did,
/// the routing table matches what the users of the first want.
vx_entry!(topics_any_order, {
    let (mut w, mut rd) = (Connections::new(ident(1)), Connections::new(ident(2 * vx::choose(2))));
    rd.add_broker(ident(1), Connection::new_test(), handle());
    let mut msgs: Vec<T> = vec![];
    for _ in 0..(if DEEP { 5 } else { 4 }) {
        match vx::choose(4) {
            t @ (0 | 1) => { w.subscribe_user_to(&k(0), vec![t as u8]); }
            2 => w.unsubscribe_user_from(&k(0), &[0]),
            _ => {
                if let Some(m) = w.get_partial_topic_sync() { msgs.push(wire_t(m)); }
                if vx::choose(2) == 1 { if let Some(m) = w.get_full_topic_sync() { msgs.push(wire_t(m)); } }
            }
        }
    }
    if let Some(m) = w.get_partial_topic_sync() { msgs.push(wire_t(m)); }
    if msgs.len() > 2 { vx::cover("several") }
    while !msgs.is_empty() {
        let i = vx::choose(msgs.len());
        let m = msgs.remove(i);
        if vx::choose(2) == 1 && msgs.len() < 2 { rd.apply_topic_sync(&ident(1), wire_t(m.clone())); vx::cover("duplicated"); }
        rd.apply_topic_sync(&ident(1), m);
    }
    for t in 0..2u8 {
        let (_, users) = w.get_interested_by_topic(&vec![t], false);
        let (brokers, _) = rd.get_interested_by_topic(&vec![t], false);
        vx::check(brokers.len() == users.len(), "routed-iff-wanted");
        let (none, _) = rd.get_interested_by_topic(&vec![t], true);
        vx::check(none.is_empty(), "not-to-brokers-when-users-only");
    }
    vx::cover("end");
});
fn sid(c: u8) -> BrokerIdentifier { BrokerIdentifier { public_advertise_endpoint: String::from_utf8(vec![c]).unwrap(), private_advertise_endpoint: "p".to_string() } }
fn letter() -> u8 { let c = vx::u8(); vx::assume((c >= b'a') & (c <= b'z')); c }
/// One merge step against its specification: the newest version wins, a value beats a tombstone of the
/// same version, the larger identity wins between values of the same version, the rest is untouched;
/// the reported changes are exactly the changed entries.
vx_entry!(merge_step, {
    let (il, ir) = (letter(), letter());
    vx::assume(il != ir);
    let (mut l, mut r) = (M::new(sid(il)), M::new(sid(ir)));
    let mut spec: Vec<(usize, bool, usize, bool)> = vec![];
    for key in 0..2u8 {
        let max = if key == 0 { 4 } else { 2 };
        let (vl, vr) = (vx::choose(max), vx::choose(max));
        let (pl, pr) = (vl > 0 && vx::choose(2) == 0, vr > 0 && vx::choose(2) == 0);
        // the last modification decides about value or tombstone; tombstones still unsynced
        for _ in 1..vl { l.insert(k(key), sid(b'L')); l.diff(); }
        if vl > 0 { if pl { l.insert(k(key), sid(b'L')) } else { l.remove(k(key)) } }
        for _ in 1..vr { r.insert(k(key), sid(b'R')); r.diff(); }
        if vr > 0 { if pr { r.insert(k(key), sid(b'R')) } else { r.remove(k(key)) } }
        spec.push((vl, pl, vr, pr));
    }
    let changes = l.merge(wire(r.clone()));
    let mut nchanges = 0;
    for (key, (vl, pl, vr, pr)) in spec.into_iter().enumerate() {
        let got = l.get(&k(key as u8)).cloned();
        let remote = if vr == 0 { false } else if vl == 0 { pr } else if vr != vl { vr > vl } else if pl != pr { pr } else { ir > il };
        let want = if remote { if pr { Some(sid(b'R')) } else { None } } else if vl > 0 && pl { Some(sid(b'L')) } else { None };
        vx::check(got == want, "newest-wins");
        let c = changes.iter().filter(|(kk, v)| **kk == uk(key as u8) && *v == want).count();
        vx::check(c == remote as usize, "changes-reported");
        nchanges += remote as usize;
        if remote && vl == vr { vx::cover("conflict-remote") }
        if !remote && vl == vr && vl > 0 { vx::cover("conflict-local") }
    }
    vx::check(changes.len() == nchanges, "no-other-changes");
    // twice is once
    let before: Vec<_> = (0..2).map(|i| l.get(&k(i)).cloned()).collect();
    l.merge(wire(r.clone()));
    vx::check((0..2).all(|i| l.get(&k(i)).cloned() == before[i as usize]), "idempotent");
    // what is changed afterwards is newer than all of that
    r.diff();
    if vx::choose(2) == 0 { let d = l.diff(); r.merge(wire(d)); r.diff(); }
    l.insert(k(0), sid(b'N'));
    r.merge(wire(l.diff()));
    vx::check(r.get(&k(0)) == Some(&sid(b'N')), "later-change-wins");
    l.merge(wire(r.get_full()));
    vx::check(l.get(&k(0)) == Some(&sid(b'N')), "later-change-stays");
    vx::cover("end");
});
/// Replicas that change an entry and hear of each other's changes late, repeatedly, in another order or not
/// at all: what each holds is the newest it saw, where a change is newer than all that its author had seen.
vx_entry!(replicas, {
    let n = if DEEP { 3 } else { 2 };
    let (ia, ib) = (letter(), letter());
    vx::assume(ia < ib);
    let ids = if n == 3 { vec![ia, ib, b'~'] } else if vx::choose(2) == 0 { vec![ia, ib] } else { vec![ib, ia] };
    let mut m: Vec<M> = ids.iter().map(|i| M::new(sid(*i))).collect();
    // the newest each saw: (version, author's rank, value); does it hold a change of its own not yet sent?
    let mut seen: Vec<((u32, usize, u8), bool)> = vec![((0, 0, 0), false); n];
    let rank: Vec<usize> = (0..n).map(|i| (0..n).filter(|j| ids[*j] < ids[i]).count()).collect();
    let mut sent: Vec<(M, usize, (u32, usize, u8))> = vec![];
    let mut value = b'A';
    for _ in 0..6 {
        let op = vx::choose(3 * n + sent.len());
        if op < 2 * n {
            let i = op % n;
            if !seen[i].1 { seen[i].0 .0 += 1; }
            seen[i] = ((seen[i].0 .0, rank[i], value), true);
            m[i].insert(k(0), sid(value));
            value += 1;
            if op >= n { sent.push((m[i].diff(), i, seen[i].0)); seen[i].1 = false; }
        } else if op < 3 * n {
            // a full state, as for a new link
            let i = op - 2 * n;
            if seen[i].0 .0 > 0 && !seen[i].1 { sent.push((m[i].get_synced(), i, (seen[i].0 .0, rank[i], seen[i].0 .2))); vx::cover("full"); }
        } else {
            let (msg, from, (v, r, x)) = sent[op - 3 * n].clone();
            let to = if n == 2 { 1 - from } else { (from + 1 + vx::choose(2)) % 3 };
            m[to].merge(wire(msg));
            // the tie goes to the larger identity, of the sender against the receiver
            if v > seen[to].0 .0 || (v == seen[to].0 .0 && r > rank[to]) { seen[to] = ((v, r, x), false); vx::cover("taken") } else { vx::cover("older") }
        }
        for i in 0..n {
            let want = if seen[i].0 .0 == 0 { None } else { Some(sid(seen[i].0 .2)) };
            vx::check(m[i].get(&k(0)).cloned() == want, "holds-the-newest");
        }
    }
});
/// Two brokers get the same user at the same time: whatever the order of deliveries, both agree.
vx_entry!(concurrent_homes, {
    let (ia, ib) = (letter(), letter());
    vx::assume(ia != ib);
    let mut c = [Connections::new(sid(ia)), Connections::new(sid(ib))];
    // some common past
    for _ in 0..vx::choose(3) {
        let i = vx::choose(2);
        c[i].add_user(&k(0), Connection::new_test(), &[], handle());
        if let Some(m) = c[i].get_partial_user_sync() { c[1 - i].apply_user_sync(wire(m)); }
    }
    // at the same time
    c[0].add_user(&k(0), Connection::new_test(), &[0], handle());
    c[1].add_user(&k(0), Connection::new_test(), &[0], handle());
    let m0 = c[0].get_partial_user_sync().unwrap();
    let m1 = c[1].get_partial_user_sync().unwrap();
    if vx::choose(2) == 0 { c[1].apply_user_sync(wire(m0)); c[0].apply_user_sync(wire(m1)); } else { c[0].apply_user_sync(wire(m1)); c[1].apply_user_sync(wire(m0)); }
    for _ in 0..2 { for i in 0..2 { if let Some(m) = c[i].get_partial_user_sync() { c[1 - i].apply_user_sync(wire(m)); } } }
    let h = c[0].get_broker_identifier_of_user(&k(0));
    vx::check(h.is_some() && h == c[1].get_broker_identifier_of_user(&k(0)), "agree");
    // and exactly that one keeps the connection and the subscriptions
    let h = h.unwrap();
    for i in 0..2 {
        let here = h == sid([ia, ib][i]);
        vx::check(c[i].num_users() == here as usize, "one-connection-left");
        vx::check(c[i].get_interested_by_topic(&vec![0], true).1.len() == here as usize, "one-subscription-left");
        if here { vx::cover(if i == 0 { "first" } else { "second" }) }
    }
});
/// A user leaves one broker and joins another; a third hears of both, over two links, in either order.
vx_entry!(move_heard_by_third, {
    let mut c = [Connections::new(ident(0)), Connections::new(ident(1)), Connections::new(ident(2))];
    // it connects to broker 1, perhaps repeatedly
    let again = vx::choose(3);
    for _ in 0..=again {
        c[1].add_user(&k(0), Connection::new_test(), &[], handle());
        if let Some(m) = c[1].get_partial_user_sync() { for i in [0, 2] { c[i].apply_user_sync(wire(m.clone())); } }
    }
    c[1].remove_user(k(0), "left");
    let left = c[1].get_partial_user_sync().unwrap();
    let early = vx::choose(2) == 0; // does it join broker 2 before that one heard of its departure?
    if !early { c[2].apply_user_sync(wire(left.clone())); }
    c[2].add_user(&k(0), Connection::new_test(), &[], handle());
    let joined = c[2].get_partial_user_sync().unwrap();
    if early { c[2].apply_user_sync(wire(left.clone())); }
    c[1].apply_user_sync(wire(joined.clone()));
    let in_order = vx::choose(2) == 0;
    if in_order { c[0].apply_user_sync(wire(left)); c[0].apply_user_sync(wire(joined)); }
    else { c[0].apply_user_sync(wire(joined)); c[0].apply_user_sync(wire(left)); }
    let ok = |c: &Connections| c.get_broker_identifier_of_user(&k(0)) == Some(ident(2));
    vx::check(ok(&c[1]) && ok(&c[2]) && c[2].num_users() == 1, "the-two-agree");
    vx::check(ok(&c[0]) || !(in_order || early), "third-agrees");
    vx::cover(if in_order { "in-order" } else { "reordered" });
    vx::check(ok(&c[0]), "third-agrees-reordered-after-tombstone");
});
