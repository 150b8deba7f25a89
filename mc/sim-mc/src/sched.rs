//! Broker checks that explore schedules, fault points and time, each with its own oracle.
use crate::explore::*;
use crate::net::*;
use mcbase::Ctx;
use refmqtt::{P, PV, Prop};

const EXP: &[(u8, u32)] = &[(0x11, 600)];

/// Connects a peer and takes its CONNACK, without branching.
pub fn join(w: &mut World, n: &mut Net, p: &P) -> usize {
    w.quiet(|w| {
        let P::Connect { client_id, .. } = p else { unreachable!() };
        let name = format!("{client_id}{}", n.peers.len());
        let Some(i) = n.dial(&name) else {
            w.fail("accept/refused", "the broker does not accept connections");
            return 0;
        };
        n.peers[i].send(p);
        w.run();
        w.run();
        match n.peers[i].recv().first() {
            Some(P::ConnAck { reason: 0, .. }) => {}
            x => w.fail("connack/missing", format!("{name}: {x:?}")),
        }
        i
    })
}
pub fn keep(p: P) -> P {
    connect_props(p, EXP.iter().map(|(i, v)| Prop { id: *i, v: PV::U32(*v) }).collect())
}
pub fn joined(w: &mut World, n: &mut Net, id: &str) -> usize {
    join(w, n, &keep(connect(id, true)))
}
/// A request whose answer is awaited, without branching.
pub fn ask(w: &mut World, n: &mut Net, i: usize, p: &P) -> Vec<P> {
    w.quiet(|w| {
        n.peers[i].send(p);
        w.run();
        w.run();
        n.peers[i].recv()
    })
}
pub fn pubs(v: &[P]) -> Vec<String> {
    v.iter()
        .filter_map(|p| match p {
            P::Publish { payload, .. } => Some(String::from_utf8_lossy(payload).to_string()),
            _ => None,
        })
        .collect()
}
pub fn settle(w: &mut World) {
    w.run();
    w.run();
    w.run();
    w.run();
    w.run();
}
/// The tasks under test must not have panicked or be polling in vain.
pub fn health(w: &mut World) {
    if let Some(m) = mcbase::take_panic() {
        w.fail("panic/panic", m);
    }
}
pub fn garbled(w: &mut World, n: &Net) {
    for p in &n.peers {
        if let Some(g) = &p.garbled {
            w.fail("garbled/garbled", format!("{}: {g}", p.name));
        }
    }
}
pub fn pongs(w: &mut World, n: &mut Net, i: usize, why: &str) -> Vec<P> {
    let v = ask(w, n, i, &P::PingReq);
    if !v.iter().any(|p| *p == P::PingResp) {
        w.fail("served/ping", format!("{why}: {} gets no PINGRESP (got {}; closed {})", n.peers[i].name, shows(&v), n.peers[i].closed()));
    }
    v
}

// ------------------------------------------------------------------ B05

/// Per publisher tag ("p1", "p2"..), what must arrive at one subscriber.
fn order(w: &mut World, who: &str, got: &[P], tag: &str, want: &[(String, u8, usize)]) {
    // want: (payload, effective quality, copies)
    for q in 0..3u8 {
        let g: Vec<&str> = got
            .iter()
            .filter_map(|p| match p {
                P::Publish { payload, qos, .. } if *qos == q => std::str::from_utf8(payload).ok().filter(|x| x.starts_with(tag)),
                _ => None,
            })
            .collect();
        let mut first: Vec<&str> = vec![];
        for x in &g {
            if !first.contains(x) {
                first.push(x)
            }
        }
        let exp: Vec<&str> = want.iter().filter(|x| x.1 == q).map(|x| x.0.as_str()).collect();
        if first != exp {
            w.fail("order/order", format!("{who} received {first:?} of {tag} with QoS {q}, published {exp:?}"));
            return;
        }
        for x in want.iter().filter(|x| x.1 == q) {
            let c = g.iter().filter(|y| **y == x.0).count();
            if c != x.2 {
                w.fail("order/copies", format!("{who} received {c} copies of {}, expected {}", x.0, x.2));
                return;
            }
        }
    }
}

pub fn b05(ctx: &Ctx) {
    ctx.rule("two publishers send mixed QoS 0/1 messages to two subscribers (one reading through a small window); every placement of up to the stated number of scheduling deviations (task order, delays, lock and write preemption, select order, early events); every publisher's messages must arrive once and in order");
    let b = if ctx.thorough { 2 } else { 1 };
    // plans: qualities published by p1 and p2
    let plans: &[(&[u8], &[u8])] = &[(&[1, 0, 1, 0], &[]), (&[0, 0, 1], &[1, 0]), (&[1, 1], &[1, 1]), (&[0, 0], &[0, 0])];
    for (pi, plan) in plans.iter().enumerate() {
        // the subscribers' grants
        for (gi, grants) in [[1u8, 0], [1, 1], [0, 0]].iter().enumerate() {
            if pi > 1 && gi > 1 {
                continue;
            }
            let b = if (pi, gi) == (2, 1) || (pi, gi) == (0, 0) { b + 1 } else { b };
            explore(ctx, &format!("publishers {pi} grants {gi}"), Cfg::all(b), &|w| {
                let (mut n, ps, ss) = w.quiet(|w| {
                    let mut n = Net::start(w, config());
                    let ps = [joined(w, &mut n, "p1"), joined(w, &mut n, "p2")];
                    let ss = [joined(w, &mut n, "s1"), joined(w, &mut n, "s2")];
                    for k in 0..2 {
                        ask(w, &mut n, ss[k], &subscribe(1, &[("t/#", grants[k])]));
                    }
                    (n, ps, ss)
                });
                if pi == 1 {
                    n.peers[ss[1]].window(7);
                }
                let qs = [plan.0, plan.1];
                let mut got = [vec![], vec![]];
                for k in 0..4 {
                    for p in 0..2 {
                        if let Some(q) = qs[p].get(k) {
                            n.peers[ps[p]].send(&publish("t/x", *q, k as u16 + 1, format!("p{}.{k}", p + 1).as_bytes()));
                            w.run_or_stop();
                        }
                    }
                    for s in 0..2 {
                        got[s].extend(n.peers[ss[s]].recv());
                    }
                }
                let mut still = 0;
                while still < 4 {
                    w.run();
                    let mut any = false;
                    for s in 0..2 {
                        let v = n.peers[ss[s]].take_any();
                        any |= v.0;
                        got[s].extend(v.1);
                    }
                    still = if any { 0 } else { still + 1 };
                }
                for s in 0..2 {
                    got[s].extend(n.peers[ss[s]].recv());
                    w.note(format!("s{}: {}", s + 1, shows(&got[s])));
                    for p in 0..2 {
                        let want: Vec<_> = qs[p]
                            .iter()
                            .enumerate()
                            .map(|(k, q)| (format!("p{}.{k}", p + 1), (*q).min(grants[s]), 1))
                            .collect();
                        order(w, &format!("s{}", s + 1), &got[s], &format!("p{}.", p + 1), &want);
                    }
                }
                garbled(w, &n);
                health(w);
            });
        }
    }
    // overlapping subscriptions, and a subscriber that is the publisher itself
    explore(ctx, "overlapping and own subscriptions", Cfg::all(b), &|w| {
        let (mut n, a, c) = w.quiet(|w| {
            let mut n = Net::start(w, config());
            let a = joined(w, &mut n, "a");
            let c = joined(w, &mut n, "c");
            ask(w, &mut n, a, &subscribe(1, &[("t/#", 1), ("t/x", 0)]));
            ask(w, &mut n, c, &subscribe(1, &[("t/+", 1)]));
            (n, a, c)
        });
        for k in 0..3u16 {
            n.peers[a].send(&publish("t/x", 1, k + 1, format!("a.{k}").as_bytes()));
            w.run_or_stop();
            n.peers[c].send(&publish("t/x", 0, 0, format!("c.{k}").as_bytes()));
            w.run_or_stop();
        }
        settle(w);
        let (ga, gc) = (n.peers[a].recv(), n.peers[c].recv());
        w.note(format!("a: {} c: {}", shows(&ga), shows(&gc)));
        for (t, g) in [("a", &ga), ("c", &gc)] {
            for src in ["a", "c"] {
                // per delivered quality the order is that of publication
                for q in 0..2u8 {
                    let x: Vec<String> = pubs(&g.iter().filter(|p| matches!(p, P::Publish { qos, .. } if *qos == q)).cloned().collect::<Vec<_>>())
                        .into_iter()
                        .filter(|m| m.starts_with(&format!("{src}.")))
                        .collect();
                    let mut y = x.clone();
                    y.sort();
                    if x != y {
                        w.fail("order/order", format!("{t} received {x:?}"));
                    }
                }
                for k in 0..3 {
                    let c = pubs(g).iter().filter(|m| **m == format!("{src}.{k}")).count();
                    let max = if t == "a" { 2 } else { 1 };
                    if c == 0 || c > max {
                        w.fail("order/copies", format!("{t} received {c} copies of {src}.{k}"));
                    }
                }
            }
        }
        health(w);
    });
    // subscribing and unsubscribing while messages flow
    explore(ctx, "subscribing meanwhile", Cfg::all(b), &|w| {
        let (mut n, p, s) = w.quiet(|w| {
            let mut n = Net::start(w, config());
            let p = joined(w, &mut n, "p");
            let s = joined(w, &mut n, "s");
            (n, p, s)
        });
        let at = w.pick(3);
        let off = w.pick(2) == 1;
        let mut got = vec![];
        let (mut on_at, mut off_at, mut end) = (None, None, None);
        for k in 0..6u16 {
            if k as usize == at {
                n.peers[s].send(&subscribe(1, &[("t", 1)]));
                w.run_or_stop();
            }
            if off && k as usize == at + 3 {
                n.peers[s].send(&unsubscribe(2, &["t"]));
                end = Some(k);
                w.run_or_stop();
            }
            got.extend(n.peers[s].recv());
            if on_at.is_none() && got.iter().any(|p| matches!(p, P::SubAck { .. })) {
                on_at = Some(k)
            }
            if off_at.is_none() && got.iter().any(|p| matches!(p, P::UnsubAck { .. })) {
                off_at = Some(k)
            }
            n.peers[p].send(&publish("t", (k % 2) as u8, k + 1, format!("p.{k}").as_bytes()));
            w.run_or_stop();
        }
        settle(w);
        got.extend(n.peers[s].recv());
        let ks: Vec<u16> = pubs(&got).iter().map(|m| m[2..].parse().unwrap()).collect();
        w.note(format!("{at} {off} on {on_at:?} off {off_at:?}: {ks:?}"));
        for q in 0..2u16 {
            let x: Vec<u16> = ks.iter().copied().filter(|k| k % 2 == q).collect();
            if !x.windows(2).all(|v| v[1] == v[0] + 2) {
                w.fail("order/gap", format!("received {ks:?}"));
            }
        }
        if let Some(on) = on_at {
            for k in on..6 {
                if !ks.contains(&k) && end.is_none() {
                    w.fail("order/missing", format!("message {k} was published after SUBACK and is missing: {ks:?}"));
                }
            }
        }
        if let Some(o) = off_at {
            if ks.iter().any(|k| *k >= o) {
                w.fail("order/late", format!("received {ks:?} although UNSUBACK arrived before {o} was published"));
            }
        }
        health(w);
    });
}

// ------------------------------------------------------------------ B06

pub fn b06(ctx: &Ctx) {
    ctx.rule("a session with n pending QoS 1 deliveries, every subset acknowledged, loses its connection in every way; every resumption is cut after every byte the broker writes, in turn, and deliveries are published meanwhile; each resumption must redeliver exactly the unacknowledged messages in order");
    let deep = ctx.thorough;
    // which messages are pending: id -> payload, in order
    fn resume(w: &mut World, n: &mut Net, id: &str, cut: Option<usize>) -> (usize, Vec<P>) {
        let i = n.dial(&format!("{id}{}", n.peers.len())).unwrap();
        if let Some(c) = cut {
            n.peers[i].break_writes(c);
        }
        n.peers[i].send(&keep(connect(id, false)));
        settle(w);
        let v = n.peers[i].recv();
        (i, v)
    }
    fn same(w: &mut World, what: &str, got: &[P], pend: &[(u16, String)], prefix: bool) {
        let mut k = 0;
        for p in got {
            if let P::Publish { dup, qos, pid, payload, topic, .. } = p {
                let Some((id, m)) = pend.get(k) else {
                    w.fail("redeliver/unexpected", format!("{what}: unexpected {} (pending {pend:?})", show(p)));
                    return;
                };
                if *payload != m.as_bytes() {
                    w.fail("redeliver/order", format!("{what}: {} instead of {m}: {}", show(p), shows(got)));
                    return;
                }
                if *pid != Some(*id) || *qos != 1 || topic != "t" {
                    w.fail("redeliver/identifier", format!("{what}: {} instead of id{id}", show(p)));
                    return;
                }
                if !dup {
                    w.fail("redeliver/no-dup", format!("{what}: {}", show(p)));
                    return;
                }
                k += 1;
            }
        }
        if !prefix && k < pend.len() {
            w.fail("redeliver/missing", format!("{what}: {:?} was not delivered again", pend[k]));
        }
    }
    let nmax = if deep { 5 } else { 4 };
    // 1. subsets acknowledged, kinds of loss, two interrupted resumptions
    for seeds in [1] {
        let _ = seeds;
        explore(ctx, "interrupted resumptions", Cfg { seeds: 3, ..Cfg::NONE }, &|w| {
            let k = w.pick(nmax) + 1;
            let mask = w.pick(1 << k);
            let loss = w.pick(4);
            let (mut n, p, s) = w.quiet(|w| {
                let mut n = Net::start(w, config());
                let p = joined(w, &mut n, "p");
                let s = joined(w, &mut n, "s");
                ask(w, &mut n, s, &subscribe(1, &[("t", 1)]));
                (n, p, s)
            });
            let mut pend = vec![];
            for m in 0..k {
                n.peers[p].send(&publish("t", 1, m as u16 + 1, format!("m{m}").as_bytes()));
                w.run();
                match &n.peers[s].recv()[..] {
                    [P::Publish { pid: Some(id), dup: false, .. }] => pend.push((*id, format!("m{m}"))),
                    x => {
                        w.fail("deliver/missing", shows(x));
                        return;
                    }
                }
            }
            for m in (0..k).rev() {
                if mask >> m & 1 == 1 {
                    n.peers[s].send(&ack(4, pend[m].0));
                    pend.remove(m);
                }
            }
            w.run();
            let mut cur = s;
            match loss {
                0 => n.peers[s].close(),
                1 => n.peers[s].reset(),
                2 => n.peers[s].send(&disconnect(0)),
                _ => {}
            }
            w.run();
            // resumptions cut short after every byte
            let full = 5 + pend.len() * 10;
            let tries = if deep { 2 } else { 1 };
            for _ in 0..tries {
                let c = w.pick(full + 8);
                let (i, v) = resume(w, &mut n, "s", Some(c));
                same(w, "interrupted resumption", &v, &pend, true);
                cur = i;
                if n.peers[i].garbled.is_some() {
                    w.fail("garbled/garbled", n.peers[i].garbled.clone().unwrap());
                }
                n.peers[i].close();
                w.run();
            }
            let _ = cur;
            let (i, v) = resume(w, &mut n, "s", None);
            w.note(format!("k={k} mask={mask:b} loss={loss} => {}", shows(&v)));
            if !matches!(v.first(), Some(P::ConnAck { sp: true, reason: 0, .. })) {
                w.fail("redeliver/session", shows(&v));
                return;
            }
            same(w, "resumption", &v, &pend, false);
            // acknowledge the first, deliver a fresh one, resume again
            if !pend.is_empty() {
                let (id, _) = pend.remove(0);
                n.peers[i].send(&ack(4, id));
            }
            n.peers[p].send(&publish("t", 1, 50, b"new"));
            w.run();
            match &n.peers[i].recv()[..] {
                [P::Publish { pid: Some(id), dup: false, payload, .. }] if payload == b"new" && !pend.iter().any(|x| x.0 == *id) => {
                    pend.push((*id, "new".into()))
                }
                x => {
                    w.fail("redeliver/fresh", format!("after resumption: {} (pending {pend:?})", shows(x)));
                    return;
                }
            }
            let (j, v) = resume(w, &mut n, "s", None);
            same(w, "second resumption", &v, &pend, false);
            for (id, _) in pend.drain(..) {
                n.peers[j].send(&ack(4, id));
            }
            w.run();
            let (_, v) = resume(w, &mut n, "s", None);
            same(w, "last resumption", &v, &pend, false);
            health(w);
        });
    }
    // 2. many pending messages keep their order
    explore(ctx, "many pending", Cfg { seeds: 3, ..Cfg::NONE }, &|w| {
        let k = [8usize, 30, 200, 900][w.pick(4)];
        let every = w.pick(3) + 2;
        let mut n = Net::start(w, config());
        let p = joined(w, &mut n, "p");
        let s = joined(w, &mut n, "s");
        ask(w, &mut n, s, &subscribe(1, &[("t", 1)]));
        let mut pend = vec![];
        for m in 0..k {
            n.peers[p].send(&publish("t", 1, m as u16 + 1, format!("m{m}").as_bytes()));
            w.run();
            n.peers[p].take_raw();
            if let [P::Publish { pid: Some(id), .. }] = &n.peers[s].recv()[..] {
                if m % every == 0 {
                    n.peers[s].send(&ack(4, *id));
                } else {
                    pend.push((*id, format!("m{m}")))
                }
            }
        }
        w.run();
        for _ in 0..2 {
            let (_, v) = resume(w, &mut n, "s", None);
            same(w, "resumption", &v, &pend, false);
        }
    });
    // the order is that of delivery, not that of the identifiers
    explore(ctx, "order across the wrap of identifiers", Cfg::NONE, &|w| {
        let early = w.pick(3);
        let skip = w.pick(5);
        // how many are left unacknowledged across the wrap
        let from = if early == 0 { [65_532, 65_490, 64_000][w.pick(3)] } else { 65_532 };
        let mut n = Net::start(w, config());
        let p = joined(w, &mut n, "p");
        let s = joined(w, &mut n, "s");
        ask(w, &mut n, s, &subscribe(1, &[("t", 1)]));
        let mut pend = vec![];
        for m in 0..65_541usize {
            n.peers[p].send(&publish("t", 1, (m % 65_000) as u16 + 1, format!("m{m}").as_bytes()));
            w.run();
            n.peers[p].take_raw();
            match &n.peers[s].recv()[..] {
                [P::Publish { pid: Some(id), .. }] => {
                    if (m >= from && m % 5 != skip) || (early > 0 && m == [0, 100, 40_000][early]) {
                        pend.push((*id, format!("m{m}")))
                    } else {
                        n.peers[s].send(&ack(4, *id));
                    }
                }
                x => {
                    w.fail("deliver/missing", shows(x));
                    return;
                }
            }
        }
        w.run();
        for _ in 0..2 {
            let (i, v) = resume(w, &mut n, "s", None);
            same(w, "resumption", &v, &pend, false);
            if w.dead {
                return;
            }
            let (id, _) = pend.remove(pend.len() / 2);
            n.peers[i].send(&ack(4, id));
            w.run();
        }
        w.note(format!("{pend:?}"));
    });
    // what is delivered again is the message, whatever its content
    explore(ctx, "content", Cfg::NONE, &|w| {
        let props: Vec<Vec<Prop>> = vec![
            vec![],
            vec![Prop { id: 1, v: PV::B(1) }, Prop { id: 2, v: PV::U32(9999) }, Prop { id: 3, v: PV::Str("c".into()) }],
            vec![Prop { id: 8, v: PV::Str("r".into()) }, Prop { id: 9, v: PV::Bin(vec![0, 255]) }],
            [("z", "b"), ("k", "b"), ("z", "a"), ("a", "")].iter().map(|(k, v)| Prop { id: 0x26, v: PV::Pair(k.to_string(), v.to_string()) }).collect(),
        ];
        let pr = &props[w.pick(props.len())];
        let len = [0usize, 1, 126, 127, 128, 4096, 16_384, 100_000][w.pick(8)];
        let topic = ["t".to_string(), "t".repeat(1000), "t".repeat(65_000)][w.pick(3)].clone();
        let mut n = Net::start(w, config());
        let p = joined(w, &mut n, "p");
        let s = joined(w, &mut n, "s");
        ask(w, &mut n, s, &subscribe(1, &[("#", 1)]));
        let msg = P::Publish { dup: false, qos: 1, retain: false, topic, pid: Some(7), props: pr.clone(), payload: vec![b'm'; len] };
        ask(w, &mut n, p, &msg);
        let first = n.peers[s].recv();
        for round in 0..2 {
            let (_, v) = resume(w, &mut n, "s", None);
            let same = match (&first[..], v.get(1)) {
                ([P::Publish { pid, topic, payload, props, .. }], Some(P::Publish { dup: true, qos: 1, pid: p2, topic: t2, payload: l2, props: r2, .. })) => {
                    pid == p2 && topic == t2 && payload == l2 && P::Disconnect { reason: 0, props: props.clone() }.canon() == P::Disconnect { reason: 0, props: r2.clone() }.canon()
                }
                _ => false,
            };
            if !same || v.len() != 2 {
                w.fail("redeliver/content", format!("resumption {round}: {} then {}", shows(&first), shows(&v)));
                return;
            }
        }
    });
    // an acknowledgement is one whatever its reason
    explore(ctx, "acknowledgements with a reason", Cfg::NONE, &|w| {
        let reason = [0u8, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99][w.pick(9)];
        let props = w.pick(2) == 1;
        let which = w.pick(3);
        let mut n = Net::start(w, config());
        let p = joined(w, &mut n, "p");
        let s = joined(w, &mut n, "s");
        ask(w, &mut n, s, &subscribe(1, &[("t", 1)]));
        let mut pend = vec![];
        for m in 0..3u16 {
            ask(w, &mut n, p, &publish("t", 1, m + 1, format!("m{m}").as_bytes()));
            if let [P::Publish { pid: Some(id), .. }] = &n.peers[s].recv()[..] {
                pend.push((*id, format!("m{m}")))
            }
        }
        if pend.len() < 3 {
            w.fail("deliver/missing", format!("{pend:?}"));
            return;
        }
        let (id, _) = pend.remove(which);
        let props = if props { vec![Prop { id: 0x1f, v: PV::Str("no".into()) }, Prop { id: 0x26, v: PV::Pair("k".into(), "v".into()) }] } else { vec![] };
        n.peers[s].send(&P::Ack { kind: 4, pid: id, reason, props });
        w.run();
        let (_, v) = resume(w, &mut n, "s", None);
        w.note(format!("{which} reason {reason:#x}: {}", shows(&v)));
        same(w, &format!("acknowledged with reason {reason:#x}, resumption"), &v, &pend, false);
    });
    // 3. the connection breaks while messages are being written to it
    explore(ctx, "loss during delivery", Cfg { bound: if deep { 1 } else { 0 }, task: true, select: true, lock: true, ..Cfg::NONE }, &|w| {
        let (mut n, p, s) = w.quiet(|w| {
            let mut n = Net::start(w, config());
            let p = joined(w, &mut n, "p");
            let s = joined(w, &mut n, "s");
            ask(w, &mut n, s, &subscribe(1, &[("t", 1)]));
            (n, p, s)
        });
        let cut = w.pick(34);
        let kind = w.pick(3);
        match kind {
            0 => n.peers[s].break_writes(cut),
            1 => n.peers[s].window(cut.max(1)),
            _ => {}
        }
        for m in 0..3u16 {
            n.peers[p].send(&publish("t", 1, m + 1, format!("m{m}").as_bytes()));
            w.run_or_stop();
        }
        if kind == 2 && cut < 3 {
            // ended by the client with everything unread
            [Peer::close, |p: &mut Peer| p.reset(), |p: &mut Peer| p.half_close()][cut](&mut n.peers[s]);
        }
        settle(w);
        let answered = n.peers[p].recv().len();
        let got = n.peers[s].recv();
        let first: Vec<(u16, String)> = got
            .iter()
            .filter_map(|p| match p {
                P::Publish { pid: Some(i), payload, .. } => Some((*i, String::from_utf8_lossy(payload).to_string())),
                _ => None,
            })
            .collect();
        let (_, v) = w.quiet(|w| resume(w, &mut n, "s", None));
        w.note(format!("cut {cut} kind {kind}: {} then {}", shows(&got), shows(&v)));
        if answered != 3 {
            w.fail("deliver/answer", format!("{answered} of 3 messages acknowledged to the publisher"));
        }
        // whatever was delivered before comes again, first and in order; the others at most once, in order
        let again: Vec<(u16, String, bool)> = v
            .iter()
            .filter_map(|p| match p {
                P::Publish { pid: Some(i), payload, dup, .. } => Some((*i, String::from_utf8_lossy(payload).to_string(), *dup)),
                _ => None,
            })
            .collect();
        for (k, f) in first.iter().enumerate() {
            match again.get(k) {
                Some(a) if (&a.0, &a.1) == (&f.0, &f.1) && a.2 => {}
                x => {
                    w.fail("redeliver/delivered", format!("delivered {first:?}, then {x:?} at {k} of {again:?}"));
                    return;
                }
            }
        }
        let names: Vec<&String> = again.iter().map(|a| &a.1).collect();
        let mut sorted = names.clone();
        sorted.sort();
        sorted.dedup();
        if names != sorted {
            w.fail("redeliver/order", format!("{again:?}"));
        }
        // the connection was known to be lost only after the first write failed: everything
        // acknowledged to the publisher while the session was connected is kept
        if kind == 1 && again.len() != 3 {
            w.fail("redeliver/queued", format!("3 messages were queued, {again:?} came on resumption"));
        }
        health(w);
    });
    // 3b. acknowledgements that meet new messages for the same session
    explore(ctx, "acknowledging meanwhile", Cfg::all(if deep { 2 } else { 1 }), &|w| {
        let (mut n, p, q, s, ids) = w.quiet(|w| {
            let mut n = Net::start(w, config());
            let p = joined(w, &mut n, "p");
            let q = joined(w, &mut n, "q");
            let s = joined(w, &mut n, "s");
            ask(w, &mut n, s, &subscribe(1, &[("t", 1)]));
            let mut ids = vec![];
            for m in 0..2u16 {
                ask(w, &mut n, p, &publish("t", 1, m + 1, format!("m{m}").as_bytes()));
                if let [P::Publish { pid: Some(id), .. }] = &n.peers[s].recv()[..] {
                    ids.push(*id)
                }
            }
            (n, p, q, s, ids)
        });
        if ids.len() < 2 {
            w.fail("deliver/missing", format!("{ids:?}"));
            return;
        }
        let first = w.pick(2) == 1;
        let which = w.pick(2);
        if first {
            n.peers[s].send(&ack(4, ids[which]));
        }
        n.peers[p].send(&publish("t", 1, 3, b"m2"));
        n.peers[q].send(&publish("t", 1, 3, b"m3"));
        if !first {
            n.peers[s].send(&ack(4, ids[which]));
        }
        w.run_or_stop();
        settle(w);
        let fresh: Vec<(u16, String)> = n.peers[s]
            .recv()
            .iter()
            .filter_map(|p| match p {
                P::Publish { pid: Some(i), payload, .. } => Some((*i, String::from_utf8_lossy(payload).to_string())),
                _ => None,
            })
            .collect();
        let mut pend = vec![(ids[1 - which], format!("m{}", 1 - which))];
        pend.extend(fresh.clone());
        if fresh.len() != 2 {
            w.fail("deliver/missing", format!("{fresh:?} of m2 and m3"));
            return;
        }
        let (_, v) = w.quiet(|w| {
            n.peers[s].close();
            settle(w);
            resume(w, &mut n, "s", None)
        });
        w.note(format!("{which} {fresh:?}: {}", shows(&v)));
        same(w, "acknowledged while others publish, resumption", &v, &pend, false);
        health(w);
    });
    // 4. publishing while the session is being resumed
    explore(ctx, "publishing during resumption", Cfg::all(if deep { 3 } else { 2 }), &|w| {
        let over = w.pick(2) == 1;
        let (mut n, p, s) = w.quiet(|w| {
            let mut n = Net::start(w, config());
            let p = joined(w, &mut n, "p");
            let s = joined(w, &mut n, "s");
            ask(w, &mut n, s, &subscribe(1, &[("t", 1)]));
            for m in 0..2u16 {
                n.peers[p].send(&publish("t", 1, m + 1, format!("m{m}").as_bytes()));
                w.run();
            }
            n.peers[p].recv();
            (n, p, s)
        });
        let pend: Vec<(u16, String)> = n.peers[s]
            .recv()
            .iter()
            .filter_map(|p| match p {
                P::Publish { pid: Some(i), payload, .. } => Some((*i, String::from_utf8_lossy(payload).to_string())),
                _ => None,
            })
            .collect();
        if !over {
            w.quiet(|w| {
                n.peers[s].close();
                w.run();
            });
        }
        let i = n.dial("again").unwrap();
        n.peers[i].send(&keep(connect("s", false)));
        n.peers[p].send(&publish("t", 1, 9, b"m2"));
        w.run_or_stop();
        n.peers[p].send(&publish("t", 1, 10, b"m3"));
        settle(w);
        let v = n.peers[i].recv();
        let old = if over { n.peers[s].recv() } else { vec![] };
        w.note(format!("over={over}: {} | old {}", shows(&v), shows(&old)));
        if !matches!(v.first(), Some(P::ConnAck { sp: true, .. })) {
            w.fail("redeliver/session", shows(&v));
            return;
        }
        let names = pubs(&v);
        if names.len() < 2 || names[..2] != [pend[0].1.clone(), pend[1].1.clone()] {
            w.fail("redeliver/order", format!("{names:?}"));
        }
        let mut x = names.clone();
        x.sort();
        x.dedup();
        if x != names {
            w.fail("redeliver/twice", format!("{names:?}"));
        }
        // a message routed while the session was connected arrives on one of its connections
        if over && !names.contains(&"m2".to_string()) && !pubs(&old).contains(&"m2".to_string()) {
            w.fail("redeliver/lost", format!("m2 was published while a connection was up: {names:?}"));
        }
        for p in &v {
            if let P::Publish { dup, payload, pid, .. } = p {
                let old_one = pend.iter().find(|x| x.1.as_bytes() == payload);
                match old_one {
                    Some(o) if !dup || Some(o.0) != *pid => w.fail("redeliver/no-dup", show(p)),
                    None if pend.iter().any(|x| Some(x.0) == *pid) => w.fail("redeliver/identifier", show(p)),
                    _ => {}
                }
            }
        }
        health(w);
    });
}
