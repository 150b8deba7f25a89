//! What a client is told about the session it gets.
use crate::explore::*;
use crate::net::*;
use mcbase::Ctx;
use refmqtt::{P, PV, Prop};
use std::time::Duration;

// ------------------------------------------------------------------ B18

fn num(p: &[Prop], id: u8) -> Option<u32> {
    p.iter().find(|x| x.id == id).map(|x| match x.v {
        PV::U16(v) => v as u32,
        PV::U32(v) => v,
        _ => unreachable!(),
    })
}
fn text(p: &[Prop], id: u8) -> Option<String> {
    p.iter().find(|x| x.id == id).map(|x| match &x.v {
        PV::Str(v) => v.clone(),
        _ => unreachable!(),
    })
}
/// The answer to a CONNECT: the CONNACK, and what follows it.
fn answer(w: &mut World, n: &mut Net, i: usize, c: &P) -> Option<(bool, u8, Vec<Prop>, Vec<P>)> {
    n.peers[i].send(c);
    w.run();
    let mut got = n.peers[i].recv();
    if let Some(g) = &n.peers[i].garbled {
        w.fail("garbled/garbled", g.clone());
        return None;
    }
    if got.is_empty() || !matches!(got[0], P::ConnAck { .. }) {
        w.fail("connack/missing", format!("{} is answered by {}", show(c), shows(&got)));
        return None;
    }
    let P::ConnAck { sp, reason, props } = got.remove(0) else { unreachable!() };
    if got.iter().any(|p| matches!(p, P::ConnAck { .. })) {
        w.fail("connack/twice", format!("{} is answered twice", show(c)));
    }
    Some((sp, reason, props, got))
}

pub fn b18(ctx: &Ctx) {
    ctx.rule("the product of configured keep-alive limits and session expiry (set at start or later), requested keep-alive and expiry, client identifier given or empty, clean start, earlier session and limit reached: the CONNACK of the real broker against the rules of MQTT 5");
    let deep = ctx.thorough;
    let secs = Duration::from_secs;
    let kas: Vec<(u64, u64)> = vec![(45, 180), (0, 180), (1, 1), (30, 65_535), (0, 0), (45, 86_400), (65_535, 65_536), (70_000, 131_072), (10, u64::MAX)];
    let exps: Vec<u64> = vec![600, 0, 1, 65_536, u32::MAX as u64, u32::MAX as u64 + 1, u32::MAX as u64 + 100, u64::MAX];
    explore(ctx, "answers", Cfg::NONE, &|w| {
        let (lo, hi) = kas[w.pick(kas.len())];
        let exp = exps[w.pick(exps.len())];
        // the expiry is given at the start, or changed later
        let later = w.pick(2) == 1;
        let (lo16, hi16) = (lo.min(65_535) as u16, hi.min(65_535) as u16);
        let mut asks: Vec<u16> = vec![0, 1, 44, 60, 65_535];
        asks.extend([lo16.saturating_sub(1), lo16, lo16.saturating_add(1), hi16.saturating_sub(1), hi16, hi16.saturating_add(1)]);
        asks.sort();
        asks.dedup();
        let ka = asks[w.pick(asks.len())];
        let top = exp.min(u32::MAX as u64) as u32;
        let mut wants: Vec<Option<u32>> = [0, 1, top.saturating_sub(1), top, top.saturating_add(1), u32::MAX].into_iter().map(Some).collect();
        wants.push(None);
        wants.sort();
        wants.dedup();
        let want = wants[w.pick(wants.len())];
        let id = ["", "c"][w.pick(2)];
        let clean = w.pick(2) == 1;
        // no earlier session, one to be resumed, one that is connected
        let before = if id.is_empty() { 0 } else { w.pick(3) };
        let extra = if deep { w.pick(4) } else { 0 };
        let mut cfg = config();
        cfg.default_keep_alive = secs(lo);
        cfg.max_keep_alive = secs(hi);
        cfg.session_expiry = secs(if later { 77 } else { exp });
        let mut n = if later { Net::start_with(w, cfg, Some(secs(exp))) } else { Net::start(w, cfg) };
        let mut old = None;
        if before > 0 {
            let i = n.dial("earlier").unwrap();
            answer(w, &mut n, i, &connect("c", true));
            if before == 1 {
                n.peers[i].send(&disconnect(0));
                w.run();
                n.peers[i].close();
                w.run();
            } else {
                old = Some(i)
            }
        }
        let i = n.dial("client").unwrap();
        let mut props = vec![];
        if let Some(e) = want {
            props.push(Prop { id: 0x11, v: PV::U32(e) })
        }
        match extra {
            1 => props.extend([Prop { id: 0x21, v: PV::U16(7) }, Prop { id: 0x27, v: PV::U32(1000) }]),
            2 => props.extend([Prop { id: 0x19, v: PV::B(1) }, Prop { id: 0x17, v: PV::B(0) }]),
            3 => props.push(Prop { id: 0x26, v: PV::Pair("k".into(), "v".into()) }),
            _ => {}
        }
        let mut c = connect_props(keep_alive(connect(id, clean), ka), props);
        if extra == 3 {
            c = with_will(c, "w", b"x", 1, 3)
        }
        let at = format!(
            "keep-alive {ka} of {lo}..{hi}, expiry {want:?} of {exp}{}, identifier {id:?}, clean {clean}, earlier session {}",
            if later { " (set later)" } else { "" },
            ["none", "resumable", "connected"][before]
        );
        w.note(at.clone());
        let Some((sp, reason, got, rest)) = answer(w, &mut n, i, &c) else { return };
        if w.dead {
            return;
        }
        if let Some(o) = old {
            n.peers[o].close()
        }
        if reason != 0 {
            w.fail("connack/refused", format!("{at}: refused with {reason:#x}"));
            return;
        }
        if !rest.is_empty() {
            w.fail("connack/more", format!("{at}: followed by {}", shows(&rest)));
        }
        if sp != (before > 0 && !clean) {
            w.fail("connack/session-present", format!("{at}: session present is {sp}"));
        }
        let eff = ka.clamp(lo16, hi16);
        let keep = num(&got, 0x13);
        if keep != (eff != ka).then_some(eff as u32) {
            w.fail("connack/keep-alive", format!("{at}: the server keep-alive announced is {keep:?}"));
        }
        let expiry = num(&got, 0x11);
        if expiry != want.filter(|e| *e > top).map(|_| top) {
            w.fail("connack/expiry", format!("{at}: the session expiry announced is {expiry:?}"));
        }
        match (id.is_empty(), text(&got, 0x12)) {
            (false, Some(x)) => w.fail("connack/identifier", format!("{at}: {x:?} is assigned although an identifier was given")),
            (true, None) => w.fail("connack/identifier", format!("{at}: no identifier is assigned")),
            (true, Some(x)) if x.is_empty() => w.fail("connack/identifier", format!("{at}: an empty identifier is assigned")),
            (true, Some(x)) => {
                // it names the session from now on
                n.peers[i].close();
                w.run();
                let i = n.dial("again").unwrap();
                let Some((sp, reason, got, _)) = answer(w, &mut n, i, &connect(&x, false)) else { return };
                if !sp || reason != 0 || text(&got, 0x12).is_some() {
                    w.fail("connack/identifier", format!("{at}: with the assigned identifier the answer is session present {sp}, {reason:#x}, assigned {:?}", text(&got, 0x12)));
                }
            }
            _ => {}
        }
        if n.peers[i].closed() && !id.is_empty() {
            w.fail("connack/closed", format!("{at}: accepted and closed"));
        }
    });
    // every assigned identifier is new
    explore(ctx, "assigned identifiers", Cfg { seeds: if deep { 64 } else { 8 }, ..Cfg::NONE }, &|w| {
        let clean = w.pick(2) == 1;
        let stay = w.pick(2) == 1;
        let mut n = Net::start(w, config());
        let mut ids = std::collections::BTreeSet::new();
        for k in 0..200 {
            let i = n.dial("client").unwrap();
            let Some((sp, reason, got, _)) = answer(w, &mut n, i, &connect("", clean)) else { return };
            let x = text(&got, 0x12).unwrap_or_default();
            if sp || reason != 0 || !ids.insert(x.clone()) {
                w.fail("connack/identifier", format!("client {k} without an identifier: session present {sp}, {reason:#x}, assigned {x:?}, which {}", if ids.contains(&x) { "is in use" } else { "is new" }));
                return;
            }
            if !stay {
                n.peers[i].close();
                w.run();
            }
        }
    });
    // where no more sessions are allowed
    explore(ctx, "refusals", Cfg::NONE, &|w| {
        let limit = w.pick(3) as u32;
        let mut cfg = config();
        cfg.max_active_sessions = Some(limit);
        cfg.session_expiry = secs(10);
        let mut n = Net::start(w, cfg);
        let ids = ["a", "b", "c"];
        for k in 0..limit as usize {
            let i = n.dial(ids[k]).unwrap();
            let clean = w.pick(2) == 0;
            answer(w, &mut n, i, &connect(ids[k], clean));
        }
        let ka = [0u16, 60, 1000][w.pick(3)];
        let clean = w.pick(2) == 1;
        let id = ["", "x", "a"][w.pick(3)];
        let props = [vec![], vec![Prop { id: 0x11, v: PV::U32(100) }]][w.pick(2)].clone();
        let i = n.dial("x").unwrap();
        let c = connect_props(keep_alive(connect(id, clean), ka), props);
        let Some((sp, reason, _, rest)) = answer(w, &mut n, i, &c) else { return };
        let in_use = id == "a" && limit > 0;
        let at = format!("limit {limit}, {}", show(&c));
        w.note(at.clone());
        if !rest.is_empty() {
            w.fail("connack/more", format!("{at}: followed by {}", shows(&rest)));
        }
        if in_use != (reason == 0) || sp != (in_use && !clean) {
            w.fail("connack/refusal", format!("{at}: answered {reason:#x}, session present {sp}"));
        }
        if !in_use && reason != 0x97 {
            w.fail("connack/refusal", format!("{at}: refused with {reason:#x}"));
        }
        if in_use == n.peers[i].closed() {
            w.fail("connack/closed", format!("{at}: answered {reason:#x} and {}", if in_use { "closed" } else { "left open" }));
        }
    });
    // what is still to be delivered comes after the answer
    explore(ctx, "resumed", Cfg::NONE, &|w| {
        let many = w.pick(4);
        let clean = w.pick(2) == 1;
        let mut n = Net::start(w, config());
        let s = n.dial("s").unwrap();
        let p = n.dial("p").unwrap();
        answer(w, &mut n, s, &connect("s", true));
        answer(w, &mut n, p, &connect("p", true));
        n.peers[s].send(&subscribe(1, &[("t", 1)]));
        w.run();
        for k in 0..many {
            n.peers[p].send(&publish("t", 1, k as u16 + 1, b"m"));
            w.run();
        }
        if w.pick(2) == 1 {
            n.peers[s].close();
            w.run();
        }
        let i = n.dial("s").unwrap();
        let Some((sp, reason, got, rest)) = answer(w, &mut n, i, &keep_alive(connect("s", clean), 60)) else { return };
        let want = if clean { 0 } else { many };
        if sp == clean || reason != 0 || !got.is_empty() || rest.len() != want {
            w.fail("connack/resumed", format!("{many} messages unacknowledged, clean {clean}: session present {sp}, {reason:#x}, then {}", shows(&rest)));
        }
    });
}

// ------------------------------------------------------------------ B20

use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Run,
    Stop,
    Drop,
    /// a client connects and is served, or is not let in
    Dial,
    /// a client that is connected asks for something
    Ping,
    Leave,
}
struct Boss {
    tx: tokio::sync::mpsc::UnboundedSender<Do>,
    /// outcomes of what was asked for, in order
    out: Arc<Mutex<Vec<Result<(), String>>>>,
}
impl Boss {
    fn new(w: &mut World, cfg: vaux_broker::Config) -> Boss {
        let (tx, mut rx) = tokio::sync::mpsc::unbounded_channel();
        let out: Arc<Mutex<Vec<Result<(), String>>>> = Default::default();
        let o = out.clone();
        w.spawn(async move {
            let mut b = Some(vaux_broker::Broker::new_with_config(cfg));
            while let Some(d) = rx.recv().await {
                let r = match (d, &mut b) {
                    (Do::Run, Some(b)) => b.run().await.map_err(|e| format!("{e:?}")),
                    (Do::Stop, Some(b)) => {
                        b.stop().await;
                        Ok(())
                    }
                    _ => {
                        b = None;
                        Ok(())
                    }
                };
                o.lock().unwrap().push(r)
            }
        });
        Boss { tx, out }
    }
    fn ask(&self, d: Do) {
        let _ = self.tx.send(d);
    }
    fn answer(&self) -> Option<Result<(), String>> {
        self.out.lock().unwrap().pop()
    }
}

pub fn b20(ctx: &Ctx) {
    ctx.rule("every history of starting, stopping and dropping the broker and of connecting, asking and leaving clients to the stated depth; a stop or drop and a connection attempt at once under every schedule to the stated deviations; another broker on the same address");
    let acts = [Do::Run, Do::Stop, Do::Dial, Do::Ping, Do::Leave, Do::Drop];
    let deep = ctx.thorough;
    explore(ctx, "histories", Cfg::NONE, &|w| {
        let boss = Boss::new(w, config());
        w.run();
        let mut n = Net { peers: vec![] };
        let (mut running, mut dropped) = (false, false);
        // connected since the broker was last started
        let mut cur: Vec<usize> = vec![];
        for _ in 0..if deep { 9 } else { 7 } {
            let en: Vec<Do> = acts
                .iter()
                .copied()
                .filter(|d| match d {
                    Do::Run | Do::Stop | Do::Drop => !dropped,
                    Do::Ping | Do::Leave => !cur.is_empty() && running,
                    Do::Dial => cur.len() < 2,
                })
                .collect();
            if en.is_empty() {
                break;
            }
            let d = en[w.pick(en.len())];
            w.note(format!("{d:?}"));
            match d {
                Do::Run | Do::Stop | Do::Drop => {
                    boss.ask(d);
                    w.run();
                    let r = boss.answer();
                    if let Some(m) = mcbase::take_panic() {
                        w.fail("panic/panic", format!("{d:?} panics: {m}"));
                        return;
                    }
                    match (d, r) {
                        (_, None) => w.fail("run/unanswered", format!("{d:?} does not return")),
                        (Do::Run, Some(r)) if r.is_ok() == running => {
                            w.fail("run/outcome", format!("run of a broker that {} gives {r:?}", if running { "runs" } else { "does not run" }))
                        }
                        _ => {}
                    }
                    if d == Do::Run {
                        running = true
                    } else {
                        running = false;
                        dropped |= d == Do::Drop;
                        cur.clear();
                    }
                }
                Do::Dial => {
                    let name = ["a", "b", "c", "d", "e", "f", "g", "h"][n.peers.len().min(7)];
                    match n.dial(name) {
                        Some(i) => {
                            n.peers[i].send(&connect(name, true));
                            w.run();
                            let ok = matches!(n.peers[i].recv()[..], [P::ConnAck { reason: 0, .. }]);
                            if ok != running {
                                w.fail("stop/serves", format!("a client is {} by a broker that {}", if ok { "served" } else { "not served" }, if running { "runs" } else { "does not run" }));
                            }
                            if ok {
                                cur.push(i)
                            }
                        }
                        None if running => w.fail("run/listening", "a broker that runs does not listen"),
                        None => {}
                    }
                }
                Do::Ping => {
                    let i = cur[cur.len() - 1];
                    n.peers[i].send(&P::PingReq);
                    w.run();
                    if !matches!(n.peers[i].recv()[..], [P::PingResp]) {
                        w.fail("run/serves", "a client of a running broker gets no answer");
                    }
                }
                Do::Leave => {
                    let i = cur.remove(0);
                    n.peers[i].send(&disconnect(0));
                    w.run();
                    if !n.peers[i].closed() {
                        w.fail("run/serves", "a client that has left is not let go");
                    }
                    n.peers[i].close();
                    w.run();
                }
            }
            if w.spun {
                w.fail("run/busy", "the broker is busy with nothing");
            }
            if w.dead {
                return;
            }
            // the address is free exactly when the broker does not run
            let probe = tokio::sim::net::TcpListener::listen(PORT);
            if probe.is_ok() == running {
                w.fail("stop/address", format!("the address is {} by a broker that {}", if probe.is_ok() { "not held" } else { "held" }, if running { "runs" } else { "does not run" }));
                return;
            }
        }
        // another broker in its place
        if !running {
            let other = Boss::new(w, config());
            other.ask(Do::Run);
            w.run();
            let i = n.dial("z");
            if let (Some(Ok(())), Some(i)) = (other.answer(), i) {
                n.peers[i].send(&connect("z", true));
                w.run();
                if matches!(n.peers[i].recv()[..], [P::ConnAck { reason: 0, .. }]) {
                    return;
                }
            }
            w.fail("stop/successor", "another broker cannot take over the address of one that does not run");
        }
    });
    // a connection attempt at the moment of the stop
    explore(ctx, "stop and connect at once", Cfg::all(if deep { 4 } else { 3 }), &|w| {
        let (boss, mut n) = w.quiet(|w| {
            let boss = Boss::new(w, config());
            boss.ask(Do::Run);
            w.run();
            boss.answer();
            (boss, Net { peers: vec![] })
        });
        let order = w.pick(2);
        let how = [Do::Stop, Do::Drop][w.pick(2)];
        let half = w.pick(2) == 1;
        let go = |n: &mut Net| {
            if let Some(i) = n.dial("a") {
                let b = refmqtt::encode(&connect("a", true), refmqtt::Form::Long);
                n.peers[i].send_raw(if half { &b[..5] } else { &b })
            }
        };
        if order == 0 {
            go(&mut n);
        }
        boss.ask(how);
        if order == 1 {
            w.run_or_stop();
            go(&mut n);
        }
        crate::sched::settle(w);
        w.quiet(|w| {
            if let Some(p) = n.peers.first_mut() {
                let got = p.recv();
                w.note(format!("{} closed {}", shows(&got), p.closed()));
                let served = matches!(got[..], [P::ConnAck { reason: 0, .. }]);
                if !served && !p.closed() && !half {
                    w.fail("stop/hanging", format!("a client that connects while the broker ends ({how:?}) is neither served nor told"));
                }
            }
            if n.dial("b").is_some() {
                w.fail("stop/serves", format!("after {how:?} the broker still listens"));
            }
            if boss.answer() != Some(Ok(())) {
                w.fail("run/unanswered", format!("{how:?} does not return"));
            }
        });
    });
}
