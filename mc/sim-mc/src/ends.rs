//! Takeover, wills, slots: what happens when connections end.
use crate::broker::*;
use crate::explore::*;
use crate::model::*;
use crate::net::*;
use crate::sched::*;
use mcbase::Ctx;
use refmqtt::{P, PV, Prop};
use vaux_broker::Config;

// ------------------------------------------------------------------ B07

#[derive(Clone, Copy, Debug, PartialEq)]
enum Old {
    Nothing,
    Sub,
    Unsub,
    Publish,
    PubAck,
    Bye,
    ByeWill,
    Close,
    Reset,
    Garbage,
    HalfClose,
    Ping,
    Connect,
    Silent,
    Stuck,
    BreakWrites,
}
use Old::*;
const OLD: &[Old] =
    &[Nothing, Sub, Unsub, Publish, PubAck, Bye, ByeWill, Close, Reset, Garbage, HalfClose, Ping, Connect, Silent, Stuck, BreakWrites];

fn act(n: &mut Net, i: usize, o: Old, pending: u16) {
    let p = &mut n.peers[i];
    match o {
        Nothing | Silent => {}
        Sub => p.send(&subscribe(21, &[("u", 1)])),
        Unsub => p.send(&unsubscribe(22, &["t"])),
        Publish => p.send(&publish("v", 1, 23, b"from-old")),
        PubAck => p.send(&ack(4, pending)),
        Bye => p.send(&disconnect(0)),
        ByeWill => p.send(&disconnect(4)),
        Close => p.close(),
        Reset => p.reset(),
        Garbage => p.send_raw(&[0xd1, 0]),
        HalfClose => p.half_close(),
        Ping => p.send(&P::PingReq),
        Connect => p.send(&connect("a", true)),
        Stuck => p.window(0),
        BreakWrites => p.break_writes(0),
    }
}

pub fn b07(ctx: &Ctx) {
    ctx.rule("a second connection with the identifier of a connected client, clean or not, against every pair of actions of the old connection before, during and after it, under every schedule with the stated number of deviations; then the new connection, its session, subscriptions, pending deliveries and will are probed over several keep-alives");
    crate::broker::similar(ctx);
    let deep = ctx.thorough;
    let run = |w: &mut World, before: Old, during: Old, after: Old, clean: bool, order: usize| {
        let (mut n, wit, pbr, old, pid) = w.quiet(|w| {
            let mut n = Net::start(w, Config { max_active_sessions: Some(3), ..config() });
            let wit = joined(w, &mut n, "wit");
            let pbr = joined(w, &mut n, "pub");
            ask(w, &mut n, wit, &subscribe(1, &[("w/#", 1), ("v", 0)]));
            let old = join(w, &mut n, &with_will(keep(connect("a", true)), "w/old", b"old will", 1, 0));
            ask(w, &mut n, old, &subscribe(2, &[("t", 1)]));
            ask(w, &mut n, pbr, &publish("t", 1, 3, b"first"));
            let pid = match &n.peers[old].recv()[..] {
                [P::Publish { pid: Some(i), .. }] => *i,
                x => {
                    w.fail("deliver/first", shows(x));
                    0
                }
            };
            (n, wit, pbr, old, pid)
        });
        if w.dead {
            return;
        }
        act(&mut n, old, before, pid);
        w.run_or_stop();
        let early = n.peers[old].recv();
        let new = n.dial("new").unwrap();
        let cp = with_will(keep(connect("a", clean)), "w/new", b"new will", 1, 0);
        if order == 0 {
            n.peers[new].send(&cp);
            w.run_or_stop();
            act(&mut n, old, during, pid);
        } else {
            act(&mut n, old, during, pid);
            n.peers[new].send(&cp);
        }
        w.run_or_stop();
        settle(w);
        let mut gone = [before, during].iter().any(|x| matches!(x, Close | Reset));
        let got_new = n.peers[new].recv();
        let got_old: Vec<P> = early.into_iter().chain(n.peers[old].recv()).collect();
        w.note(format!(
            "{before:?},{during:?},{after:?} clean={clean} order={order}: new {} | old {}{}",
            shows(&got_new),
            shows(&got_old),
            if n.peers[old].closed() { " closed" } else { "" }
        ));
        // the new connection is served at once
        match got_new.first() {
            Some(P::ConnAck { sp, reason: 0, .. }) => {
                if *sp != !clean {
                    w.fail("takeover/session-present", format!("session present {sp}"));
                }
            }
            x => {
                w.fail("takeover/connack", format!("the new connection got {x:?}"));
                return;
            }
        }
        act(&mut n, old, after, pid);
        settle(w);
        gone |= matches!(after, Close | Reset);
        w.quiet(|w| {
            // the old one is told and closed
            let stuck = [before, during, after].iter().any(|x| matches!(x, Stuck | BreakWrites));
            let own_end = [before, during].iter().any(|x| matches!(x, Bye | ByeWill | Close | Reset | Garbage | HalfClose | Connect));
            w.advance(1000);
            let more = n.peers[old].recv();
            let got_old: Vec<P> = got_old.iter().cloned().chain(more).collect();
            if !gone && !stuck {
                if !n.peers[old].closed() {
                    w.fail("takeover/open", format!("the old connection is still open; it got {}", shows(&got_old)));
                }
                let told = matches!(got_old.last(), Some(P::Disconnect { reason: 0x8e, .. }));
                if !own_end && !told {
                    w.fail("takeover/not-told", format!("the old connection got {}", shows(&got_old)));
                }
            }
            // time passes; the old connection's timers and errors must not matter
            let mut delivered: Vec<P> = got_new.clone();
            for _ in 0..5 {
                w.advance(40_000);
                delivered.extend(pongs(w, &mut n, new, "after takeover"));
                pongs(w, &mut n, wit, "witness");
                pongs(w, &mut n, pbr, "publisher");
                if w.dead {
                    return;
                }
            }
            if !gone && !n.peers[old].closed() {
                w.fail("takeover/open", "the old connection is still open after 200 s");
            }
            let trouble = n.peers[new].recv();
            if n.peers[new].closed() || !trouble.is_empty() {
                w.fail("takeover/new-disturbed", format!("closed={} {}", n.peers[new].closed(), shows(&trouble)));
                return;
            }
            // its subscriptions
            let suback = got_old.iter().any(|p| matches!(p, P::SubAck { pid: 21, .. }));
            let unsuback = got_old.iter().any(|p| matches!(p, P::UnsubAck { pid: 22, .. }));
            for (topic, must, may) in [
                ("t", !clean && ![before, during, after].contains(&Unsub), !clean && !unsuback),
                ("u", !clean && suback, !clean && [before, during].contains(&Sub)),
            ] {
                ask(w, &mut n, pbr, &publish(topic, 0, 0, b"probe"));
                let c = pubsn(&n.peers[new].recv(), "probe");
                let ok = match (must, may) {
                    (true, _) => c == 1,
                    (false, true) => c <= 1,
                    _ => c == 0,
                };
                if !ok {
                    w.fail("takeover/subscriptions", format!("{topic}: {c} copies (must {must}, may {may})"));
                    return;
                }
            }
            // its pending deliveries: whatever it was sent again it still owes an answer for
            let again: Vec<u16> = delivered
                .iter()
                .filter_map(|p| match p {
                    P::Publish { pid: Some(i), payload, .. } if payload == b"first" => Some(*i),
                    _ => None,
                })
                .collect();
            if clean && !again.is_empty() {
                w.fail("takeover/clean-pending", shows(&delivered));
            }
            if !clean && again.is_empty() && ![before, during, after].contains(&PubAck) {
                w.fail("takeover/pending-lost", shows(&delivered));
            }
            // its will, and only its will
            n.peers[new].close();
            settle(w);
            let wills = n.peers[wit].recv();
            let (o, nw) = (pubsn(&wills, "old will"), pubsn(&wills, "new will"));
            let unwitnessed = delivered_old(&got_old);
            let _ = unwitnessed;
            if nw != 1 {
                w.fail("takeover/new-will", format!("{nw} copies of the new connection's will: {}", shows(&wills)));
            }
            if o != 0 {
                w.fail("takeover/old-will-late", shows(&wills));
            }
            // the session is still whole
            let i = n.dial("resumed").unwrap();
            n.peers[i].send(&keep(connect("a", false)));
            settle(w);
            let v = n.peers[i].recv();
            let redone = v.iter().any(|p| matches!(p, P::Publish { payload, .. } if payload == b"first"));
            if !matches!(v.first(), Some(P::ConnAck { sp: true, reason: 0, .. })) || redone != !again.is_empty() {
                w.fail("takeover/session", format!("{} (redelivered to the new connection: {again:?})", shows(&v)));
            }
        });
        garbled(w, &n);
        health(w);
    };
    // every pair of actions in the default schedule
    explore(ctx, "pairs of actions", Cfg::NONE, &|w| {
        let (b, d) = (OLD[w.pick(OLD.len())], OLD[w.pick(OLD.len())]);
        let a = if deep { OLD[w.pick(OLD.len())] } else { Nothing };
        let clean = w.pick(2) == 1;
        let order = w.pick(2);
        run(w, b, d, a, clean, order)
    });
    // one action racing with the takeover
    explore(ctx, "races", Cfg::all(2), &|w| {
        let d = OLD[w.pick(OLD.len())];
        let clean = w.pick(2) == 1;
        let order = w.pick(2);
        run(w, Nothing, d, Nothing, clean, order)
    });
    if deep {
        explore(ctx, "races of pairs", Cfg::all(1), &|w| {
            let (b, d) = (OLD[w.pick(OLD.len())], OLD[w.pick(OLD.len())]);
            let clean = w.pick(2) == 1;
            run(w, b, d, Nothing, clean, 0)
        });
    }
    // requests of the old connection meet the takeover; the new one subscribes at once
    explore(ctx, "requests race with requests", Cfg::all(if deep { 3 } else { 2 }), &|w| {
        let clean = w.pick(2) == 1;
        let old_does = w.pick(4);
        let (mut n, pbr, old) = w.quiet(|w| {
            let mut n = Net::start(w, config());
            let pbr = joined(w, &mut n, "pub");
            let old = joined(w, &mut n, "a");
            ask(w, &mut n, old, &subscribe(2, &[("t", 0), ("k", 1)]));
            (n, pbr, old)
        });
        match old_does {
            0 => n.peers[old].send(&unsubscribe(22, &["t"])),
            1 => n.peers[old].send(&subscribe(23, &[("u", 1)])),
            2 => n.peers[old].send(&subscribe(23, &[("t", 4)])),
            _ => n.peers[old].send(&unsubscribe(22, &["k", "t", "u"])),
        }
        let new = n.dial("new").unwrap();
        n.peers[new].send(&keep(connect("a", clean)));
        n.peers[new].send(&subscribe(31, &[("t", 1)]));
        if old_does == 1 {
            n.peers[new].send(&unsubscribe(32, &["u"]));
        }
        w.run_or_stop();
        settle(w);
        w.quiet(|w| {
            w.advance(1000);
            let v = n.peers[new].recv();
            w.note(format!("{old_does} {clean}: {} | {}", shows(&v), shows(&n.peers[old].recv())));
            if !v.iter().any(|p| matches!(p, P::SubAck { pid: 31, .. })) {
                w.fail("takeover/connack", format!("the new connection got {}", shows(&v)));
                return;
            }
            // what the new connection asked for holds
            ask(w, &mut n, pbr, &publish("t", 1, 3, b"probe t"));
            let g = n.peers[new].recv();
            if !matches!(&g[..], [P::Publish { qos: 1, payload, .. }] if payload == b"probe t") {
                w.fail("takeover/subscriptions", format!("the new connection subscribed to t with QoS 1 and then received {}", shows(&g)));
                return;
            }
            ask(w, &mut n, new, &publish("t", 0, 0, b"own"));
            ask(w, &mut n, pbr, &publish("u", 0, 0, b"probe u"));
            ask(w, &mut n, pbr, &publish("k", 0, 0, b"probe k"));
            let g = n.peers[new].recv();
            if pubsn(&g, "probe u") > 0 && (old_does == 1 || clean) {
                w.fail("takeover/subscriptions", format!("the new connection is not subscribed to u, but received {}", shows(&g)));
            }
            if pubsn(&g, "probe k") > 0 && clean {
                w.fail("takeover/subscriptions", format!("the new connection is not subscribed to k, but received {}", shows(&g)));
            }
        });
        garbled(w, &n);
        health(w);
    });
    // several connections at once: the last one standing is served, all others are closed
    explore(ctx, "three at once", Cfg::all(if deep { 3 } else { 2 }), &|w| {
        let m = w.pick(4);
        let mut n = w.quiet(|w| Net::start(w, config()));
        let mut is = vec![];
        for k in 0..3 {
            let i = n.dial(&format!("c{k}")).unwrap();
            n.peers[i].send(&keep(connect("a", k != 0 && (m >> (k - 1)) & 1 == 1)));
            w.run_or_stop();
            is.push(i);
        }
        settle(w);
        w.quiet(|w| {
            w.advance(1000);
            let mut alive = vec![];
            for i in &is {
                let v = n.peers[*i].recv();
                w.note(format!("{}: {}{}", n.peers[*i].name, shows(&v), if n.peers[*i].closed() { " closed" } else { "" }));
                if !matches!(v.first(), Some(P::ConnAck { reason: 0, .. })) {
                    // taken over before the answer was written
                    if !n.peers[*i].closed() {
                        w.fail("takeover/connack", shows(&v));
                    }
                }
                if !n.peers[*i].closed() {
                    alive.push(*i);
                } else if !matches!(v.last(), Some(P::Disconnect { reason: 0x8e, .. })) {
                    w.fail("takeover/not-told", shows(&v));
                }
            }
            if alive.len() != 1 {
                w.fail("takeover/alive", format!("{} connections are open", alive.len()));
                return;
            }
            pongs(w, &mut n, alive[0], "the last one");
            w.advance(60_000);
            pongs(w, &mut n, alive[0], "the last one, later");
        });
        health(w);
    });
}
fn delivered_old(_: &[P]) -> bool {
    false
}
pub fn pubsn(v: &[P], what: &str) -> usize {
    v.iter().filter(|p| matches!(p, P::Publish { payload, .. } if payload == what.as_bytes())).count()
}

// ------------------------------------------------------------------ B09

/// Ways a connection ends, and whether that publishes the will.
const ENDS: &[(&str, bool)] = &[
    ("close", true),
    ("reset", true),
    ("half-close", true),
    ("disconnect with will", true),
    ("disconnect with error", true),
    ("reserved flag bits", true),
    ("unknown packet type", true),
    ("truncated packet", true),
    ("invalid UTF-8", true),
    ("QoS 3", true),
    ("remaining length too long", true),
    ("second CONNECT", true),
    ("silence", true),
    ("writes fail", true),
    ("answer cannot be written", true),
    ("falls behind", true),
    ("taken over", true),
    ("taken over cleanly", true),
    ("normal disconnect", false),
    ("normal disconnect, more bytes", false),
    ("normal disconnect, reset", false),
    ("normal disconnect, garbage", false),
];

fn end(w: &mut World, n: &mut Net, a: usize, other: usize, kind: &str) -> Option<usize> {
    let p = &mut n.peers[a];
    match kind {
        "close" => p.close(),
        "reset" => p.reset(),
        "half-close" => p.half_close(),
        "disconnect with will" => p.send(&disconnect(4)),
        "disconnect with error" => p.send(&disconnect(0x80)),
        "reserved flag bits" => p.send_raw(&[0xc1, 0]),
        "unknown packet type" => p.send_raw(&[0x00, 0]),
        "truncated packet" => {
            p.send_raw(&[0x30, 10, 0, 1]);
            p.half_close()
        }
        "invalid UTF-8" => p.send_raw(&[0x30, 6, 0, 2, 0xff, 0xfe, 0, b'x']),
        "QoS 3" => p.send_raw(&[0x36, 6, 0, 1, b't', 0, 1, 0]),
        "remaining length too long" => p.send_raw(&[0x30, 0xff, 0xff, 0xff, 0xff, 0x7f]),
        "second CONNECT" => p.send(&connect("a", true)),
        "silence" => {
            for _ in 0..5 {
                w.advance(20_000);
                for i in 0..n.peers.len() {
                    if i != a {
                        n.peers[i].send(&P::PingReq)
                    }
                }
            }
        }
        "writes fail" => {
            p.break_writes(1);
            n.peers[other].send(&publish("to/a", 1, 77, b"x"));
        }
        "answer cannot be written" => {
            p.break_writes(0);
            p.send(&subscribe(9, &[("z", 0)]));
        }
        "falls behind" => {
            p.window(1);
            for k in 0..15u16 {
                n.peers[other].send(&publish("to/a", 1, 100 + k, b"x"));
                w.run();
            }
            for _ in 0..6 {
                for i in 0..n.peers.len() {
                    if i != a {
                        n.peers[i].send(&P::PingReq)
                    }
                }
                w.advance(30_000);
            }
        }
        "taken over" | "taken over cleanly" => {
            let i = n.dial("second").unwrap();
            n.peers[i].send(&keep(connect("a", kind == "taken over cleanly")));
            w.run_or_stop();
            return Some(i);
        }
        "normal disconnect" => p.send(&disconnect(0)),
        "normal disconnect, more bytes" => {
            p.send(&disconnect(0));
            p.send(&P::PingReq);
            p.send(&publish("to/a", 0, 0, b"late"));
        }
        "normal disconnect, reset" => {
            p.send(&disconnect(0));
            w.run_or_stop();
            n.peers[a].half_close();
        }
        "normal disconnect, garbage" => {
            p.send(&disconnect(0));
            p.send_raw(&[0xff, 0xff]);
        }
        _ => unreachable!(),
    }
    None
}

fn will_props() -> Vec<Prop> {
    vec![
        Prop { id: 1, v: PV::B(1) },
        Prop { id: 2, v: PV::U32(99) },
        Prop { id: 3, v: PV::Str("text/plain".into()) },
        Prop { id: 8, v: PV::Str("re".into()) },
        Prop { id: 9, v: PV::Bin(vec![1, 0, 2]) },
        Prop { id: 0x26, v: PV::Pair("z".into(), "v".into()) },
        Prop { id: 0x26, v: PV::Pair("k".into(), "w".into()) },
        Prop { id: 0x26, v: PV::Pair("z".into(), "u".into()) },
    ]
}
fn willed(id: &str, clean: bool, qos: u8, mask: usize) -> P {
    let p = with_will(keep(connect(id, clean)), "w/a", b"the will", qos, 0);
    match p {
        P::Connect { clean, keep_alive, props, client_id, username, password, will } => P::Connect {
            clean,
            keep_alive,
            props,
            client_id,
            username,
            password,
            will: will.map(|mut x| {
                x.props = will_props().into_iter().filter(|p| mask >> [1, 2, 3, 8, 9, 0x26].iter().position(|i| *i == p.id).unwrap() & 1 == 1).collect();
                // no delay, said explicitly
                if mask >> 6 & 1 == 1 {
                    x.props.insert(0, Prop { id: 0x18, v: PV::U32(0) });
                }
                x
            }),
        },
        p => p,
    }
}
fn sorted(p: &[Prop]) -> Vec<String> {
    // user properties keep their order, the others have none
    let mut v: Vec<String> = p.iter().filter(|p| p.id != 0x26).map(|p| format!("{p:?}")).collect();
    v.sort();
    v.extend(p.iter().filter(|p| p.id == 0x26).map(|p| format!("{p:?}")));
    v
}

pub fn b09(ctx: &Ctx) {
    ctx.rule("every way a connection can end x every stage of the connection, with every schedule to the stated number of deviations, followed by every kind of reconnection and end; the number and content of will messages at a QoS 0 and a QoS 1 subscriber are counted");
    let deep = ctx.thorough;
    let stages = ["idle", "at once", "request in flight", "delivery in flight", "redelivery"];
    let run = |w: &mut World, kind: (&str, bool), stage: &str, then: usize| {
        let (mut n, s1, s0, other, a) = w.quiet(|w| {
            let mut n = Net::start(w, Config { session_channel_size: 4, ..config() });
            let s1 = joined(w, &mut n, "s1");
            let s0 = joined(w, &mut n, "s0");
            let other = joined(w, &mut n, "other");
            ask(w, &mut n, s1, &subscribe(1, &[("w/#", 1)]));
            ask(w, &mut n, s0, &subscribe(1, &[("w/a", 0)]));
            if stage == "redelivery" {
                let a = join(w, &mut n, &keep(connect("a", true)));
                ask(w, &mut n, a, &subscribe(1, &[("to/a", 1)]));
                ask(w, &mut n, other, &publish("to/a", 1, 7, b"x"));
                n.peers[a].send(&disconnect(0));
                w.run();
            }
            let a = n.dial("a").unwrap();
            (n, s1, s0, other, a)
        });
        let zero = if matches!(stage, "idle" | "redelivery") { w.pick(2) * 64 } else { 0 };
        n.peers[a].send(&willed("a", stage != "redelivery", 1, 63 | zero));
        match stage {
            "at once" => {}
            _ => {
                w.quiet(|w| settle(w));
                n.peers[a].recv();
                w.quiet(|w| ask(w, &mut n, a, &subscribe(1, &[("to/a", 1)])));
                match stage {
                    "request in flight" => n.peers[a].send(&subscribe(5, &[("q", 1), ("r/#", 0)])),
                    "delivery in flight" => n.peers[other].send(&publish("to/a", 1, 8, b"y")),
                    _ => {}
                }
                w.run_or_stop();
            }
        }
        let second = end(w, &mut n, a, other, kind.0);
        w.run_or_stop();
        settle(w);
        w.quiet(|w| {
            w.advance(1000);
            // what comes after must not publish it again
            match then {
                1 => {
                    let i = n.dial("again").unwrap();
                    n.peers[i].send(&keep(connect("a", false)));
                    settle(w);
                    n.peers[i].close();
                }
                2 => {
                    let i = n.dial("again").unwrap();
                    n.peers[i].send(&keep(connect("a", true)));
                    settle(w);
                    n.peers[i].send(&disconnect(4));
                }
                _ => {}
            }
            settle(w);
            for _ in 0..6 {
                for i in [s1, s0, other] {
                    n.peers[i].send(&P::PingReq)
                }
                if let Some(i) = second {
                    n.peers[i].send(&P::PingReq)
                }
                w.advance(30_000);
            }
        });
        let want = if kind.1 { 1 } else { 0 };
        for (i, q) in [(s1, 1u8), (s0, 0)] {
            let got = n.peers[i].recv();
            let v: Vec<&P> = got.iter().filter(|p| matches!(p, P::Publish { .. })).collect();
            w.note(format!("{} {stage} then {then}: {}", kind.0, shows(&got.iter().filter(|p| **p != P::PingResp).cloned().collect::<Vec<_>>())));
            // an end at once may come before the CONNECT has been looked at
            let some = if stage == "at once" && matches!(kind.0, "reset" | "taken over" | "taken over cleanly") { v.len() <= 1 } else { v.len() == want };
            if !some {
                w.fail(
                    if v.len() > want { "will/extra" } else { "will/missing" },
                    format!("{} ({stage}): {} copies of the will at {}, expected {want}", kind.0, v.len(), n.peers[i].name),
                );
                return;
            }
            if let Some(P::Publish { topic, payload, qos, props, dup, .. }) = v.first() {
                if topic != "w/a" || payload != b"the will" || *qos != q || *dup || sorted(props) != sorted(&will_props()) {
                    w.fail("will/content", format!("{:?}", v[0]));
                }
            }
        }
        garbled(w, &n);
        health(w);
    };
    for s in stages {
        explore(ctx, &format!("ends, {s}"), Cfg::all(if deep { 2 } else { 1 }), &|w| {
            let k = ENDS[w.pick(ENDS.len())];
            let then = if deep { w.pick(3) } else { 0 };
            run(w, k, s, then)
        });
        explore(ctx, &format!("ends and reconnections, {s}"), Cfg::NONE, &|w| {
            let k = ENDS[w.pick(ENDS.len())];
            let then = w.pick(3);
            run(w, k, s, then)
        });
    }
    // content: every combination of properties and QoS, will and subscription
    explore(ctx, "content", Cfg::NONE, &|w| {
        let mask = w.pick(128);
        let wq = w.pick(3) as u8;
        let sq = w.pick(3) as u8;
        let mut n = Net::start(w, config());
        let s = joined(w, &mut n, "s");
        ask(w, &mut n, s, &subscribe(1, &[("w/+", sq)]));
        let a = join(w, &mut n, &willed("a", true, wq, mask));
        n.peers[a].close();
        settle(w);
        let want: Vec<Prop> = will_props().into_iter().filter(|p| mask >> [1, 2, 3, 8, 9, 0x26].iter().position(|i| *i == p.id).unwrap() & 1 == 1).collect();
        match &n.peers[s].recv()[..] {
            [P::Publish { topic, payload, qos, props, pid, .. }]
                if topic == "w/a" && payload == b"the will" && *qos == wq.min(sq) && pid.is_some() == (*qos > 0) && sorted(props) == sorted(&want) => {}
            x => w.fail("will/content", format!("mask {mask:b} qos {wq}/{sq}: {x:?}")),
        }
    });
    // the extreme values of each property
    let extreme: Vec<Prop> = crate::broker::extreme_props().into_iter().filter(|p| p.v != PV::Bin(vec![])).collect();
    explore(ctx, "property values", Cfg::NONE, &|w| {
        let k = w.pick(extreme.len());
        let over = w.pick(2) == 1;
        let mut n = Net::start(w, config());
        let s = joined(w, &mut n, "s");
        ask(w, &mut n, s, &subscribe(1, &[("w", 1)]));
        let mut p = with_will(keep(connect("a", true)), "w", b"x", 1, 0);
        if let P::Connect { will: Some(x), .. } = &mut p {
            x.props = vec![extreme[k].clone()];
        }
        let a = join(w, &mut n, &p);
        if over {
            join(w, &mut n, &keep(connect("a", true)));
        } else {
            n.peers[a].close();
        }
        settle(w);
        let mut got = vec![];
        for _ in 0..200 {
            got.extend(n.peers[s].recv());
            w.run();
        }
        match &got[..] {
            [P::Publish { topic, payload, qos: 1, props, .. }]
                if topic == "w"
                    && payload == b"x"
                    // format 0 is what a message without the property has
                    && (sorted(props) == sorted(&[extreme[k].clone()]) || props.is_empty() && extreme[k].id == 1 && extreme[k].v == PV::B(0)) => {}
            x => w.fail("will/content", format!("property {}: {}", extreme[k].id, { let mut t = format!("{x:?}"); t.truncate(300); t })),
        }
    });
    // a will with a delay is due in the end as well
    explore(ctx, "ends with a delayed will", Cfg::all(if deep { 1 } else { 0 }), &|w| {
        let kind = ENDS[w.pick(ENDS.len())];
        let delay = [1u32, 5, 70][w.pick(3)];
        let asked = w.pick(2) == 1;
        let (mut n, s1, other, a) = w.quiet(|w| {
            let mut n = Net::start(w, Config { session_channel_size: 4, ..config() });
            let s1 = joined(w, &mut n, "s1");
            let other = joined(w, &mut n, "other");
            ask(w, &mut n, s1, &subscribe(1, &[("w", 1)]));
            let a = join(w, &mut n, &with_will(keep(connect("a", true)), "w", b"late", 1, delay));
            ask(w, &mut n, a, &subscribe(1, &[("to/a", 1)]));
            (n, s1, other, a)
        });
        if asked {
            n.peers[a].send(&subscribe(5, &[("q", 1), ("r/#", 0)]));
        }
        let second = end(w, &mut n, a, other, kind.0);
        w.run_or_stop();
        settle(w);
        w.quiet(|w| {
            for _ in 0..10 {
                for i in [Some(s1), Some(other), second].into_iter().flatten() {
                    n.peers[i].send(&P::PingReq)
                }
                w.advance(30_000);
            }
        });
        let want = if kind.1 && kind.0 != "taken over" { 1 } else { 0 };
        let got = pubs(&n.peers[s1].recv()).len();
        if got != want {
            w.fail(
                if got > want { "will/extra" } else { "will/missing" },
                format!("{} with a delay of {delay} s: {got} copies of the will, expected {want}", kind.0),
            );
        }
        garbled(w, &n);
        health(w);
    });
    explore(ctx, "payloads and topics", Cfg::NONE, &|w| {
        let len = [0usize, 1, 2, 100, 127, 128, 255, 256, 4096, 16_384, 65_535][w.pick(11)];
        let fill = [b'x', 0, 0xff][w.pick(3)];
        let topic = ["w", "w/", "/w", " w ", "w//x", "$w", "W", &"w".repeat(3000)][w.pick(8)].to_string();
        let retain = w.pick(2) == 1;
        let wq = w.pick(3) as u8;
        let over = w.pick(2) == 1;
        let mut n = Net::start(w, config());
        let s = joined(w, &mut n, "s");
        let other = joined(w, &mut n, "other");
        ask(w, &mut n, s, &subscribe(1, &[(&topic, 1)]));
        ask(w, &mut n, other, &subscribe(1, &[("nothing/#", 1)]));
        let body = vec![fill; len];
        let mut p = with_will(keep(connect("a", true)), &topic, &body, wq, 0);
        if let P::Connect { will: Some(x), username, password, .. } = &mut p {
            x.retain = retain;
            *username = retain.then(|| "u".into());
            *password = (wq > 0).then(|| b"p".to_vec());
        }
        let a = join(w, &mut n, &p);
        if over {
            join(w, &mut n, &keep(connect("a", false)));
        } else {
            n.peers[a].close();
        }
        settle(w);
        match &n.peers[s].recv()[..] {
            [P::Publish { topic: t, payload, qos, props, .. }] if *t == topic && *payload == body && *qos == wq.min(1) && props.is_empty() => {}
            x => w.fail("will/content", format!("will for {:?} of {len} bytes: {}", &topic[..topic.len().min(20)], shows(x))),
        }
        if !n.peers[other].recv().is_empty() {
            w.fail("will/extra", "someone not subscribed received it");
        }
    });
    // a write that fails at any byte of CONNACK, redeliveries, answers and deliveries
    explore(ctx, "writes fail after every byte", Cfg { bound: if deep { 1 } else { 0 }, task: true, select: true, ..Cfg::NONE }, &|w| {
        let c = w.pick(48);
        let (mut n, s, other) = w.quiet(|w| {
            let mut n = Net::start(w, config());
            let s = joined(w, &mut n, "s");
            let other = joined(w, &mut n, "other");
            ask(w, &mut n, s, &subscribe(1, &[("w/#", 1)]));
            let a = join(w, &mut n, &keep(connect("a", true)));
            ask(w, &mut n, a, &subscribe(1, &[("to/a", 1)]));
            ask(w, &mut n, other, &publish("to/a", 1, 7, b"x"));
            n.peers[a].close();
            w.run();
            (n, s, other)
        });
        let a = n.dial("a").unwrap();
        n.peers[a].break_writes(c);
        n.peers[a].send(&willed("a", false, 1, 0));
        w.run_or_stop();
        n.peers[a].send(&subscribe(2, &[("q", 1)]));
        w.run_or_stop();
        n.peers[other].send(&publish("to/a", 1, 8, b"y"));
        w.run_or_stop();
        n.peers[a].send(&P::PingReq);
        settle(w);
        let wrote = 48 - c;
        let total = n.peers[a].recv().len();
        let got = n.peers[s].recv();
        let closed = n.peers[a].closed() || n.peers[a].gone();
        w.note(format!("broken after {c} bytes ({total} packets, {wrote}): closed {closed} {}", shows(&got)));
        if closed != (pubsn(&got, "the will") == 1) || pubsn(&got, "the will") > 1 {
            w.fail("will/write-error", format!("connection gone: {closed}, will copies: {}", shows(&got)));
        }
        health(w);
    });
}

// ------------------------------------------------------------------ B10

pub fn b10(ctx: &Ctx) {
    ctx.rule("every history of losses with delayed wills, reconnections (clean or not), normal disconnects and passing time on a grid around the delay, to the stated depth; every schedule of a reconnection at the moment the delay ends");
    let deep = ctx.thorough;
    let acc: &[&str] = &["deliver", "content", "panic", "garbled", "accept", "harness-panic"];
    let al = vec![
        conw(0, "a", false, "w", 1, 5),
        conw(0, "a", true, "w", 0, 5),
        con(0, "a", false),
        con(0, "a", true),
        conw(1, "b", false, "w", 1, 3),
        con(1, "a", false),
        con(1, "a", true),
        Op::Drop { slot: 0 },
        Op::Bye { slot: 0, reason: 4 },
        Op::Bye { slot: 0, reason: 0 },
        Op::Drop { slot: 1 },
        Op::Tick { ms: 2_999 },
        Op::Tick { ms: 1 },
        Op::Tick { ms: 2_000 },
    ];
    hist(ctx, acc, &Hist {
        setup: vec![con(2, "s", true), sub(2, &[("w", 1)]), conw(0, "a", true, "w", 1, 5)],
        alphabet: al.clone(),
        depth: if deep { 6 } else { 5 },
        probe: vec![Op::Tick { ms: 2_000 }, Op::Tick { ms: 2_999 }, Op::Tick { ms: 1 }, Op::Tick { ms: 10_000 }],
        ..Hist::new("histories", 3)
    });
    // one client, deeper
    let al: Vec<Op> = vec![
        conw(0, "a", false, "w", 1, 5),
        con(0, "a", false),
        con(0, "a", true),
        Op::Drop { slot: 0 },
        Op::Bye { slot: 0, reason: 4 },
        Op::Tick { ms: 4_999 },
        Op::Tick { ms: 1 },
    ];
    hist(ctx, acc, &Hist {
        setup: vec![con(2, "s", true), sub(2, &[("w", 1)]), conw(0, "a", true, "w", 1, 5)],
        alphabet: al,
        depth: if deep { 9 } else { 7 },
        probe: vec![Op::Tick { ms: 4_999 }, Op::Tick { ms: 1 }, Op::Tick { ms: 10_000 }],
        ..Hist::new("one client", 3)
    });
    // delays of every size
    explore(ctx, "delays", Cfg::NONE, &|w| {
        let delay = [1u32, 2, 59, 60, 61, 127, 128, 255, 256, 257, 3_600, 65_535, 65_536, 65_537, 65_541, 86_400, 100_000, 4_294_967, 4_294_968, 16_777_216, 60_000_000][w.pick(21)];
        let end = w.pick(3);
        let off = w.pick(2);
        let mut n = Net::start(w, Config { session_expiry: std::time::Duration::from_secs(1 << 31), ..config() });
        let p = with_will(connect_props(connect("a", true), vec![Prop { id: 0x11, v: PV::U32(u32::MAX) }]), "w", b"late", 1, delay);
        let a = join(w, &mut n, &p);
        match end {
            0 => n.peers[a].close(),
            1 => n.peers[a].send(&disconnect(4)),
            _ => n.peers[a].send_raw(&[0, 0]),
        }
        settle(w);
        // from time to time somebody looks
        let due = delay as u64 * 1000;
        let mut t = 0;
        let mut marks: Vec<u64> = vec![0, 1_000, 5_000, 17_000, 100_000, 1_000_000, 16_960_000, 34_464_000, due / 2, due.saturating_sub(10_000), due.saturating_sub(500), due - 1];
        marks.retain(|m| *m < due);
        marks.sort();
        marks.dedup();
        for m in marks {
            if m < t || (off == 1 && m + 1 < due) {
                continue;
            }
            w.advance(m - t);
            t = m;
            let s = joined(w, &mut n, "s");
            ask(w, &mut n, s, &subscribe(1, &[("w", 1)]));
            let room = (due - 1 - t).min(30_000);
            w.advance(room);
            t += room;
            let v = n.peers[s].recv();
            if !v.is_empty() {
                w.fail("will/early", format!("delay {delay} s: {} after {t} ms", shows(&v)));
                return;
            }
            if t == due - 1 {
                w.advance(2);
                let v = n.peers[s].recv();
                if pubsn(&v, "late") != 1 || v.len() != 1 {
                    w.fail("will/not-published", format!("delay {delay} s: after it has passed the subscriber received {}", shows(&v)));
                }
                w.advance(20_000);
                let v = n.peers[s].recv();
                if !v.is_empty() {
                    w.fail("will/count", format!("delay {delay} s: later {}", shows(&v)));
                }
                return;
            }
            n.peers[s].close();
            settle(w);
        }
        w.fail("harness", "never looked");
    });
    // reconnection around the end of the delay, all schedules
    explore(ctx, "reconnecting in time", Cfg::all(if deep { 3 } else { 2 }), &|w| {
        let end = w.pick(3);
        let at = [0u64, 1, 2_500, 4_999, 5_000, 5_001][w.pick(6)];
        let again = w.pick(3);
        let (mut n, s, a) = w.quiet(|w| {
            let mut n = Net::start(w, config());
            let s = joined(w, &mut n, "s");
            ask(w, &mut n, s, &subscribe(1, &[("w", 1)]));
            let a = join(w, &mut n, &with_will(keep(connect("a", true)), "w", b"late", 1, 5));
            (n, s, a)
        });
        match end {
            0 => n.peers[a].close(),
            1 => n.peers[a].send(&disconnect(4)),
            _ => n.peers[a].send_raw(&[0, 0]),
        }
        w.run_or_stop();
        if at > 0 {
            settle(w);
            w.advance(at);
        }
        if at > 5_000 {
            settle(w);
        }
        let early = n.peers[s].recv();
        let i = n.dial("again").unwrap();
        let p = keep(connect("a", again == 1));
        n.peers[i].send(&if again == 2 { with_will(p, "w", b"fresh", 1, 2) } else { p });
        w.run_or_stop();
        settle(w);
        let up = matches!(n.peers[i].recv().first(), Some(P::ConnAck { reason: 0, .. }));
        w.quiet(|w| {
            w.advance(4_000);
            w.advance(7_000);
        });
        let late = n.peers[s].recv();
        let c = pubsn(&early, "late") + pubsn(&late, "late");
        w.note(format!("end {end} reconnect {again} at {at}: {} / {}", shows(&early), shows(&late)));
        if !up {
            w.fail("will/reconnect", "the reconnection was not accepted");
        }
        if at < 5_000 && pubsn(&early, "late") > 0 {
            w.fail("will/early", format!("published within {at} ms"));
        }
        if at > 5_000 && pubsn(&early, "late") != 1 {
            w.fail("will/not-published", format!("{} copies after {at} ms", pubsn(&early, "late")));
        }
        // resumed in time: never
        if again != 1 && at < 5_000 && c > 0 {
            w.fail("will/not-cancelled", format!("reconnected after {at} ms, then {}", shows(&late)));
        }
        if c > 1 || (again == 1 && c != 1) {
            w.fail("will/count", format!("{c} copies"));
        }
        if pubsn(&late, "fresh") > 0 {
            w.fail("will/connected", "a connected client's will was published");
        }
        health(w);
    });
}

// ------------------------------------------------------------------ B11

pub fn b11(ctx: &Ctx) {
    ctx.rule("every history of connects, takeovers and all kinds of connection end with limits 1 and 2 to the stated depth, compared with the reference model; concurrent connects under every schedule to the stated number of deviations; connections whose every byte of output may fail");
    let deep = ctx.thorough;
    let acc: &[&str] = &["connack", "slot", "closed", "takeover", "panic", "garbled", "accept", "harness-panic"];
    for lim in 1..=2u32 {
        let mut al = vec![];
        for (k, id) in ["a", "b", "c"].into_iter().enumerate() {
            if k == 2 && lim == 1 {
                continue;
            }
            al.push(con(k, id, true));
            al.push(con(k, id, false));
            al.push(Op::Drop { slot: k });
            al.push(Op::Bye { slot: k, reason: 0 });
        }
        al.push(Op::Reset { slot: 0 });
        al.push(Op::Garbage { slot: 0 });
        al.push(Op::Bye { slot: 0, reason: 4 });
        al.push(con(3, "a", false));
        al.push(con(3, "a", true));
        al.push(Op::Drop { slot: 3 });
        al.push(Op::Tick { ms: 90_000 });
        hist(ctx, acc, &Hist {
            alphabet: al,
            cfg: Config { max_active_sessions: Some(lim), ..config() },
            depth: if deep { 6 } else { if lim == 1 { 5 } else { 4 } },
            probe: vec![con(0, "a", false), con(1, "b", false), con(2, "c", false), Op::Drop { slot: 0 }, con(1, "b", false), con(2, "c", true)],
            ..Hist::new(if lim == 1 { "limit 1" } else { "limit 2" }, 4)
        });
    }
    // nobody at all
    hist(ctx, acc, &Hist {
        alphabet: vec![con(0, "a", true), con(0, "a", false), con(1, "b", false), con(2, "c", true), Op::Tick { ms: 90_000 }],
        cfg: Config { max_active_sessions: Some(0), ..config() },
        depth: 4,
        ..Hist::new("limit 0", 3)
    });
    // many
    for lim in [3u32, 7, 40, 260] {
        explore(ctx, &format!("limit {lim}"), Cfg::NONE, &|w| {
            let how = if lim < 100 { w.pick(6) } else { 3 * w.pick(2) };
            let step = if lim < 100 { w.pick(3) + 1 } else { 13 };
            let mut n = Net::start(w, Config { max_active_sessions: Some(lim), ..config() });
            for round in 0..3 {
                let base = n.peers.len();
                fits(w, &mut n, lim);
                if w.dead {
                    return;
                }
                // some of them end, their sessions keep their state; as many come again
                let ended: Vec<usize> = (0..lim as usize).step_by(step).collect();
                for k in &ended {
                    let p = &mut n.peers[base + k];
                    match how {
                        0 => p.close(),
                        1 => p.reset(),
                        2 => p.half_close(),
                        3 => p.send(&disconnect(0)),
                        4 => p.send(&disconnect(4)),
                        _ => p.send_raw(&[0, 0]),
                    }
                }
                settle(w);
                for k in 0..ended.len() + 1 {
                    let id = if (k + round) % 2 == 0 { format!("x{}", ended[k % ended.len()]) } else { format!("y{round}{k}") };
                    let i = n.dial(&id).unwrap();
                    n.peers[i].send(&keep(connect(&id, k % 3 == 0)));
                    settle(w);
                    let v = n.peers[i].recv();
                    let want = if k < ended.len() { 0 } else { 0x97 };
                    // the last identifier may be one that is connected again by now
                    if k == ended.len() && id.starts_with('x') {
                        continue;
                    }
                    if !matches!(v.first(), Some(P::ConnAck { reason, .. }) if *reason == want) {
                        w.fail("slot/count", format!("limit {lim}: client {k} of {} places freed got {}", ended.len(), shows(&v)));
                        return;
                    }
                }
                for p in &mut n.peers {
                    p.close();
                }
                settle(w);
            }
            fits(w, &mut n, lim);
        });
    }
    // at once
    for lim in 1..=2u32 {
        explore(ctx, &format!("at once, limit {lim}"), Cfg::all(if deep { 3 } else { 2 }), &|w| {
            let same = w.pick(2) == 1;
            let drop_first = w.pick(2) == 1;
            let mut n = w.quiet(|w| Net::start(w, Config { max_active_sessions: Some(lim), ..config() }));
            let ids = if same { ["a", "a", "b"] } else { ["a", "b", "c"] };
            let mut is = vec![];
            for id in ids {
                let i = n.dial(id).unwrap();
                n.peers[i].send(&keep(connect(id, true)));
                w.run_or_stop();
                if drop_first && is.is_empty() {
                    n.peers[i].half_close();
                }
                is.push(i);
            }
            settle(w);
            w.quiet(|w| {
                w.advance(1000);
                let mut open = std::collections::BTreeSet::new();
                for (k, i) in is.iter().enumerate() {
                    let v = n.peers[*i].recv();
                    w.note(format!("{}{k}: {}{}", ids[k], shows(&v), if n.peers[*i].closed() { " closed" } else { "" }));
                    match v.first() {
                        Some(P::ConnAck { reason: 0, .. }) => {
                            if !n.peers[*i].closed() && !open.insert(ids[k]) {
                                w.fail("slot/double", format!("two connections of {} are open", ids[k]));
                            }
                        }
                        Some(P::ConnAck { reason: 0x97, .. }) => {
                            if !n.peers[*i].closed() {
                                w.fail("slot/open", "a refused connection is still open");
                            }
                        }
                        Some(P::Disconnect { reason: 0x8e, .. }) if same => {}
                        x => {
                            if !(drop_first && k == 0) {
                                w.fail("slot/answer", format!("{x:?}"))
                            }
                        }
                    }
                }
                if open.len() > lim as usize {
                    w.fail("slot/over", format!("{open:?} with limit {lim}"));
                }
                // whatever happened, exactly limit clients fit afterwards
                for i in &is {
                    n.peers[*i].close();
                }
                settle(w);
                fits(w, &mut n, lim);
            });
            health(w);
        });
    }
    // output that fails after every byte, output that is never read
    explore(ctx, "failing connections", Cfg { bound: if deep { 2 } else { 1 }, task: true, select: true, ..Cfg::NONE }, &|w| {
        let (mut n, other) = w.quiet(|w| {
            let mut n = Net::start(w, Config { max_active_sessions: Some(2), session_channel_size: 3, ..config() });
            let other = joined(w, &mut n, "other");
            let a = joined(w, &mut n, "a");
            ask(w, &mut n, a, &subscribe(1, &[("t", 1)]));
            ask(w, &mut n, other, &publish("t", 1, 7, b"x"));
            n.peers[a].close();
            w.run();
            (n, other)
        });
        let kind = w.pick(3);
        let c = w.pick(if kind == 2 { 6 } else { 40 });
        let a = n.dial("a").unwrap();
        match kind {
            0 => n.peers[a].break_writes(c),
            1 => n.peers[a].window(c.max(1)),
            _ => {}
        }
        n.peers[a].send(&keep(connect("a", false)));
        w.run_or_stop();
        if kind == 2 {
            match c {
                0 => n.peers[a].close(),
                1 => n.peers[a].reset(),
                2 => n.peers[a].half_close(),
                3 => n.peers[a].send(&connect("a", false)),
                4 => n.peers[a].send_raw(&[0xf1, 0x00]),
                _ => n.peers[a].send(&disconnect(0x80)),
            }
        } else {
            n.peers[a].send(&subscribe(2, &[("q", 0)]));
            w.run_or_stop();
            for k in 0..6 {
                n.peers[other].send(&publish("t", 1, 10 + k, b"y"));
                w.run_or_stop();
            }
            n.peers[a].send(&P::PingReq);
        }
        settle(w);
        w.quiet(|w| {
            // a client that does not read has until its keep-alive has passed twice
            if kind == 1 {
                for _ in 0..8 {
                    n.peers[other].send(&P::PingReq);
                    w.advance(24_000);
                }
            }
            let closed = n.peers[a].closed() || n.peers[a].gone();
            w.note(format!("kind {kind} after {c}: closed {closed}"));
            if !closed && kind != 0 {
                w.fail("slot/stays", format!("kind {kind} after {c} bytes: the connection is still there"));
            }
            n.peers[a].close();
            n.peers[other].close();
            settle(w);
            fits(w, &mut n, 2);
        });
        health(w);
    });
}
/// No connection is left: exactly `lim` clients can connect.
pub fn fits(w: &mut World, n: &mut Net, lim: u32) {
    for k in 0..lim + 1 {
        let i = n.dial(&format!("x{k}")).unwrap();
        n.peers[i].send(&keep(connect(&format!("x{k}"), true)));
        settle(w);
        let v = n.peers[i].recv();
        let want = if k < lim { 0 } else { 0x97 };
        if !matches!(v.first(), Some(P::ConnAck { reason, .. }) if *reason == want) {
            w.fail("slot/count", format!("client {k} of limit {lim} got {} after all others had gone", shows(&v)));
            return;
        }
    }
}
