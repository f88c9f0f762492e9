use sys::*;
async fn brokers(n: usize) { for i in 0..n { broker(i).await; } settle().await; pass(21).await; }
async fn probe(from: &Inbox, t: u8, body: u8) -> Vec<u8> {
    let m = Message::Broadcast(Broadcast { topics: vec![t], message: vec![body] });
    let raw = m.serialize().unwrap();
    vx::check(from.send(m).await, "sender-accepted");
    settle().await;
    raw
}
fn has(s: &[bool; 2], t: u8) -> bool { (t == 0 && s[0]) | (t == 1 && s[1]) }
/// Whatever the users of one broker did, a quiet sync interval later the other brokers route
/// broadcasts to it iff it has subscribers.
vx_entry!(history, {
    run(async {
        concrete_entropy();
        brokers(2).await;
        let w = join(0, &uk(0), &[]).await.unwrap();
        let mut users: Vec<Option<(Inbox, [bool; 2])>> = vec![None, None];
        let k = if DEEP { 4 } else { 3 };
        for _ in 0..k {
            let who = vx::choose(2);
            match users[who].take() {
                None => {
                    let s = [vx::choose(2) == 1, vx::choose(2) == 1];
                    let t: Vec<u8> = (0..2u8).filter(|t| s[*t as usize]).collect();
                    users[who] = Some((join(1, &uk(1 + who as u8), &t).await.unwrap(), s));
                    vx::cover("joined");
                }
                Some((u, mut s)) => {
                    let op = vx::choose(3);
                    if op == 2 { u.leave(); vx::cover("left"); }
                    else {
                        let t = vx::choose(2);
                        u.send(if op == 0 { Message::Subscribe(vec![t as u8]) } else { Message::Unsubscribe(vec![t as u8]) }).await;
                        s[t] = op == 0;
                        users[who] = Some((u, s));
                        vx::cover("changed");
                    }
                }
            }
            settle().await;
            if vx::choose(2) == 1 { pass(11).await; }
        }
        pass(11).await;
        for u in users.iter().flatten() { vx::check(!u.0.is_closed(), "still-connected"); u.0.take(); }
        let t = vx::u8();
        let raw = probe(&w, t, vx::u8()).await;
        for (u, s) in users.iter().flatten() {
            let got = u.take();
            vx::check(got.len() == has(s, t) as usize, "receives-iff-subscribed");
            for g in &got { vx::check(beq(g, &raw), "unmodified"); vx::cover("delivered"); }
        }
        vx::check(w.take().is_empty() && (!w.is_closed() || t > 1), "sender-not-subscribed");
        vx::cover("end");
    });
});
/// What a broker announces to its peers is exactly what its users want, also to a peer that connects
/// late or again.
vx_entry!(announcements, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let mut peers = vec![Some(peer(0, 5).await)];
        let mut user: Option<(Inbox, [bool; 2])> = None;
        let mut view: Vec<[bool; 2]> = vec![[false; 2]];
        fn learn(p: &Inbox, v: &mut [bool; 2]) {
            for m in p.take() {
                if let Ok(Message::TopicSync(x)) = Message::deserialize(&m) {
                    let d: TopicSyncMapAlias = rkyv::from_bytes(&x).unwrap();
                    for t in 0..2u8 { match d.get(&t) { Some(SubscriptionStatus::Subscribed) => v[t as usize] = true, Some(SubscriptionStatus::Unsubscribed) => v[t as usize] = false, None => {} } }
                }
            }
        }
        for _ in 0..(if DEEP { 5 } else { 4 }) {
            match (vx::choose(3), user.take()) {
                (0, None) => { let s = [true, vx::choose(2) == 1]; let t: Vec<u8> = (0..2u8).filter(|t| s[*t as usize]).collect(); user = Some((join(0, &uk(1), &t).await.unwrap(), s)); }
                (0, Some((u, s))) => { if vx::choose(2) == 0 { u.leave() } else { let t = vx::choose(2); u.send(if s[t] { Message::Unsubscribe(vec![t as u8]) } else { Message::Subscribe(vec![t as u8]) }).await; let mut s = s; s[t] = !s[t]; user = Some((u, s)); } }
                (1, u) => { user = u; pass(11).await; }
                (_, u) => {
                    user = u;
                    // the peer connects (again), with a clean slate
                    peers[0].take().unwrap().leave();
                    settle().await;
                    peers[0] = Some(peer(0, 5).await);
                    view[0] = [false; 2];
                    vx::cover("reconnected");
                }
            }
            settle().await;
            learn(peers[0].as_ref().unwrap(), &mut view[0]);
        }
        pass(11).await;
        learn(peers[0].as_ref().unwrap(), &mut view[0]);
        let want = user.as_ref().map_or([false; 2], |u| u.1);
        vx::check(view[0] == want, "announced-iff-wanted");
        if want[0] { vx::cover("wanted") }
        vx::cover("end");
    });
});
use cdn_broker::vx_access::{SubscriptionStatus, TopicSyncMap as TopicSyncMapAlias};
/// The links between the brokers break: after they are dialled again, everything is routed again.
vx_entry!(broken_link, {
    run(async {
        concrete_entropy();
        brokers(2).await;
        let links = tokio::io::vx_pipes();
        let w = join(0, &uk(0), &[0]).await.unwrap();
        let a = join(1, &uk(1), &[0]).await.unwrap();
        let b = join(1, &uk(2), &[1]).await.unwrap();
        pass(11).await;
        let mut sa = [true, false];
        let mut sb = Some([false, true]);
        let mut b = Some(b);
        // one direction or both
        let which = vx::choose(3);
        let change_before = vx::choose(2) == 0;
        let mut cut = false;
        for round in 0..2 {
            if (round == 0) != change_before { for i in 0..links { if which == 2 || i % 2 == which { tokio::io::vx_cut(i); } } settle().await; cut = true; }
            else {
                match vx::choose(3) {
                    0 => { a.send(Message::Subscribe(vec![1])).await; sa[1] = true; }
                    1 => { a.send(Message::Unsubscribe(vec![0])).await; sa[0] = false; }
                    _ => { b.take().unwrap().leave(); sb = None; }
                }
                settle().await;
                if vx::choose(2) == 1 { pass(11).await; }
            }
        }
        vx::check(cut, "cut");
        pass(31).await;
        for x in [&w, &a] { vx::check(!x.is_closed(), "users-unaffected"); x.take(); }
        if let Some(b) = &b { vx::check(!b.is_closed(), "users-unaffected"); b.take(); }
        let t = vx::u8();
        vx::assume(t < 2);
        probe(&w, t, 1).await;
        vx::check(a.take().len() == has(&sa, t) as usize, "receives-iff-subscribed");
        if let (Some(b), Some(sb)) = (&b, &sb) { vx::check(b.take().len() == has(sb, t) as usize, "receives-iff-subscribed"); }
        w.take();
        let to = vx::u8();
        w.send(Message::Direct(Direct { recipient: uk(to), message: vec![5] })).await;
        settle().await;
        vx::check(a.take().len() == (to == 1) as usize, "direct-still-routed");
        if let Some(b) = &b { vx::check(b.take().len() == (to == 2) as usize, "direct-still-routed"); }
        vx::check(w.take().len() == (to == 0) as usize, "direct-still-routed");
        vx::cover("end");
    });
});

/// A peer links again, its old link lost, left, or not even known to be lost yet; the peer itself may have
/// restarted. What it announces counts from then on, and only that.
vx_entry!(relinked, {
    run(async {
        concrete_entropy();
        broker(0).await;
        settle().await;
        let w = join(0, &uk(0), &[]).await.unwrap();
        let mut map = TopicSyncMapAlias::new(5);
        let mut wants = [false; 2];
        let mut old: Vec<Inbox> = vec![];
        let mut first = true;
        for _ in 0..(if DEEP { 3 } else { 2 }) {
            if !first && vx::choose(2) == 1 { map = TopicSyncMapAlias::new(5); wants = [false; 2]; vx::cover("restarted"); }
            // it changes its mind while there is no link
            let toggle = |map: &mut TopicSyncMapAlias, wants: &mut [bool; 2], t: usize| {
                wants[t] = !wants[t];
                map.insert(t as u8, if wants[t] { SubscriptionStatus::Subscribed } else { SubscriptionStatus::Unsubscribed });
                map.diff()
            };
            for t in 0..2 { if vx::choose(2) == 1 { toggle(&mut map, &mut wants, t); } }
            let p = peer(0, 5).await;
            let tell = |m: TopicSyncMapAlias| Message::TopicSync(rkyv::to_bytes::<_, 256>(&m).unwrap().to_vec());
            p.send(tell(map.get_full())).await;
            settle().await;
            match vx::choose(3) { 0 => {} t => { let d = toggle(&mut map, &mut wants, t - 1); p.send(tell(d)).await; settle().await; } }
            p.take();
            for t in 0..2u8 {
                probe(&w, t, 1).await;
                vx::check(payloads(p.take()).len() == has(&wants, t) as usize, "routed-iff-announced");
                for o in &old { vx::check(payloads(o.take()).is_empty(), "nothing-on-the-old-link"); }
            }
            match vx::choose(3) {
                0 => { p.leave(); vx::cover("left"); settle().await; probe(&w, 0, 1).await; }
                1 => { p.leave(); }
                _ => { old.push(p); vx::cover("superseded"); }
            }
            first = false;
        }
        vx::check(!w.is_closed(), "users-unaffected");
        vx::cover("end");
    });
});
