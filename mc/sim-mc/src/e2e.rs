//! Real clients and the real broker in one simulated process.
use crate::client::*;
use crate::explore::*;
use crate::net::*;
use crate::sched::settle;
use mcbase::Ctx;
use refmqtt::P;
use std::collections::BTreeMap;
use std::sync::Arc;
use tokio::sim::net::{Dialled, TcpListener, dialled, shape};
use vaux_client::{ClientBuilder, MqttConnection};
use crate::tls::{pki, tls_config};
use vaux_mqtt::Packet;

const IDS: [&str; 4] = ["c0", "c1", "c2", "c3"];
const ALWAYS: &[&str] = &["panic", "deliver", "alive", "start", "harness-panic", "panic-on-drop", "idle", "will", "stall"];

pub struct Node {
    c: Cli,
    how: How,
    id: usize,
    /// what is subscribed, by the model
    subs: BTreeMap<&'static str, u8>,
    /// PUBLISH packets the application got
    got: Vec<P>,
    up: bool,
    /// number of its connection among those dialled
    conn: usize,
}
pub struct E2e {
    n: Vec<Node>,
    /// published so far, by publisher
    count: Vec<u32>,
    tls: bool,
}
fn builder(id: usize, size: u16, how: How) -> How {
    Arc::new(move |b: ClientBuilder| how(b.with_client_id(IDS[id]).with_channel_size(size)))
}
pub fn plain() -> How {
    Arc::new(|b| b)
}
fn payload(who: usize, n: u32, size: usize) -> Vec<u8> {
    let mut v = format!("{who}:{n}:").into_bytes();
    let mut x = (who as u32 * 7919 + n * 104729) | 1;
    while v.len() < size {
        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
        v.push((x >> 24) as u8)
    }
    v
}
/// (publisher, number) of a payload
fn tag(p: &[u8]) -> Option<(usize, u32)> {
    let s = &p[..p.len().min(12)];
    let mut it = s.split(|c| *c == b':');
    let a = std::str::from_utf8(it.next()?).ok()?.parse().ok()?;
    let b = std::str::from_utf8(it.next()?).ok()?.parse().ok()?;
    Some((a, b))
}
impl E2e {
    pub fn boot(w: &mut World, clients: &[(u16, How)]) -> E2e {
        E2e::boot_tls(w, clients, false)
    }
    pub fn boot_tls(w: &mut World, clients: &[(u16, How)], tls: bool) -> E2e {
        let mut s = E2e { n: vec![], count: vec![0; clients.len()], tls };
        w.quiet(|w| {
            if w.replay {
                tokio::sim::net::log();
            }
            Net::start(w, if tls { tls_config(&pki().servers[0].acceptor) } else { config() });
            for (i, (size, how)) in clients.iter().enumerate() {
                let c = Cli { lis: TcpListener::listen(2000 + i as u16).unwrap(), peer: None, prod: None, cons: None, sh: Default::default() };
                s.n.push(Node { c, how: builder(i, *size, how.clone()), id: i, subs: BTreeMap::new(), got: vec![], up: false, conn: 0 });
                s.start(w, i, None, true);
            }
        });
        s
    }
    fn start(&mut self, w: &mut World, i: usize, state: Option<vaux_client::session::SessionState>, clean: bool) {
        if w.dead {
            return;
        }
        let n = &mut self.n[i];
        let mut conn = MqttConnection::new().with_host("127.0.0.1").with_port(PORT);
        if self.tls {
            conn = conn.with_tls().with_trust_store(pki().right.clone());
        }
        n.c.launch_with(w, conn, n.how.clone(), state, clean, None);
        settle(w);
        if n.c.connected() != Some(true) {
            w.fail("start/start", format!("client {} does not get connected: {}", n.id, n.c.why()));
            return;
        }
        n.up = true;
        n.conn = dialled(PORT).len() - 1;
    }
    fn link(&self, i: usize) -> Dialled {
        dialled(PORT)[self.n[i].conn].clone()
    }
    fn sub(&mut self, w: &mut World, i: usize, f: &'static str, q: u8) {
        self.n[i].c.push(&subscribe(9, &[(f, q)]));
        self.n[i].subs.insert(f, q);
        settle(w);
    }
    fn publish(&mut self, w: &mut World, i: usize, topic: &str, q: u8, size: usize) -> (usize, u32) {
        let k = self.count[i];
        self.count[i] += 1;
        let mut p = vaux_mqtt::Publish::default();
        p.topic_name = topic.into();
        p.payload = Some(payload(i, k, size).into());
        p.set_qos(q.try_into().unwrap());
        if !self.n[i].c.push_packet(Packet::Publish(p)) {
            w.fail("alive/producer", format!("client {i} takes no more packets: {}", self.n[i].c.why()));
        }
        (i, k)
    }
    /// The application of `i` reads all there is.
    fn read(&mut self, w: &mut World, i: usize) {
        for p in self.n[i].c.app() {
            if let P::Publish { .. } = &p {
                w.note(format!("client {i} gets {}", show(&p)));
                self.n[i].got.push(p);
            }
        }
    }
    /// Everyone reads until nothing moves any more.
    fn drain(&mut self, w: &mut World) {
        loop {
            settle(w);
            let before: usize = self.n.iter().map(|n| n.got.len()).sum();
            for i in 0..self.n.len() {
                self.read(w, i)
            }
            settle(w);
            for i in 0..self.n.len() {
                self.read(w, i)
            }
            let after: usize = self.n.iter().map(|n| n.got.len()).sum();
            if before == after {
                break;
            }
        }
    }
    fn healthy(&self, w: &mut World) {
        if let Some(m) = mcbase::take_panic() {
            w.fail("panic/panic", m);
        }
        if w.spun {
            w.fail("idle/spinning", "clients and broker never become idle");
        }
        for n in &self.n {
            if n.up && n.c.connected() != Some(true) {
                w.fail("alive/alive", format!("client {} is not connected any more: {}", n.id, n.c.why()));
            }
        }
    }
    /// For replays: what was on the wire.
    fn wires(&self, w: &mut World) {
        if !w.replay {
            return;
        }
        for (i, d) in dialled(PORT).iter().enumerate() {
            for (p, n) in [(&d.up, "up"), (&d.down, "down")] {
                let l = p.lock().unwrap().log.clone().unwrap_or_default();
                let (v, rest) = refmqtt::parse_stream(&l);
                let v: Vec<P> = v.into_iter().map(|x| x.0).collect();
                println!("  connection {i} {n}: {} {rest:?}", shows(&v));
            }
        }
    }
    /// Node `i` got exactly `want` — (publisher, number) with topic and quality — in the order of each publisher,
    /// topic and quality; with `again`, repeats of quality 1 are allowed after the first.
    fn judge(&mut self, w: &mut World, i: usize, want: &[Sent], again: bool) {
        if w.dead {
            return;
        }
        self.wires(w);
        let got = std::mem::take(&mut self.n[i].got);
        let mut flows: BTreeMap<(usize, String, u8), Vec<u32>> = BTreeMap::new();
        for p in &got {
            let P::Publish { topic, qos, payload: b, dup, retain, .. } = p else { continue };
            let Some((a, k)) = tag(b) else {
                w.fail("deliver/content", format!("client {i} gets {} that nobody published", show(p)));
                return;
            };
            let Some(s) = want.iter().find(|s| s.who == a && s.n == k) else {
                w.fail("deliver/unwanted", format!("client {i} gets {}, which is not for it", show(p)));
                return;
            };
            let same = *topic == s.topic && *qos == s.qos && !*retain && *b == payload(a, k, s.size);
            if !same {
                w.fail("deliver/content", format!("client {i} gets {} ({} bytes) instead of {s:?}", show(p), b.len()));
                return;
            }
            let f = flows.entry((a, topic.clone(), *qos)).or_default();
            if f.contains(&k) {
                if again && *qos == 1 {
                    continue;
                }
                w.fail("deliver/twice", format!("client {i} gets {} twice", show(p)));
                return;
            }
            if *dup && !again {
                w.fail("deliver/dup", format!("client {i} gets {} marked as a duplicate", show(p)));
                return;
            }
            f.push(k);
        }
        for (k, v) in &flows {
            if v.windows(2).any(|x| x[0] > x[1]) {
                w.fail("deliver/order", format!("client {i} gets messages {v:?} of client {} ({}, QoS {})", k.0, k.1, k.2));
                return;
            }
        }
        for s in want.iter().filter(|s| s.must) {
            if !flows.get(&(s.who, s.topic.clone(), s.qos)).is_some_and(|v| v.contains(&s.n)) {
                w.fail("deliver/missing", format!("client {i} never gets {s:?}; it has got {}", shows(&got)));
                return;
            }
        }
    }
}
#[derive(Clone, Debug)]
pub struct Sent {
    who: usize,
    n: u32,
    topic: String,
    /// as delivered
    qos: u8,
    size: usize,
    must: bool,
}
fn sent(x: (usize, u32), topic: &str, qos: u8, size: usize) -> Sent {
    Sent { who: x.0, n: x.1, topic: topic.into(), qos, size, must: true }
}

// ------------------------------------------------------------------ E01

#[derive(Clone, Debug)]
enum Op {
    Pub(usize, &'static str, u8),
    Sub(usize, &'static str, u8),
    Unsub(usize, &'static str),
    /// connection lost, client started again from its state
    Lose(usize),
    /// stopped by the application and started again
    Again(usize, bool),
    Pass(u64),
    /// another client of the same name takes over
    Take(usize),
}
fn covers(f: &str, t: &str) -> bool {
    refmqtt::topic_matches(f, t)
}
fn histories(ctx: &Ctx, name: &str, depth: usize, al: &[Op], clients: usize) {
    explore(ctx, name, Cfg::NONE, &|w| {
        w.accept = Some(ALWAYS);
        let cs: Vec<(u16, How)> = (0..clients).map(|_| (64, plain())).collect();
        let mut s = E2e::boot(w, &cs);
        for _ in 0..depth {
            if w.dead {
                return;
            }
            let o = &al[w.pick(al.len())];
            w.note(format!("{o:?}"));
            let mut want: Vec<Vec<Sent>> = vec![vec![]; clients];
            match *o {
                Op::Pub(i, t, q) => {
                    let x = s.publish(w, i, t, q, 8);
                    for (j, n) in s.n.iter().enumerate() {
                        if let Some((_, g)) = n.subs.iter().find(|(f, _)| covers(f, t)) {
                            want[j].push(sent(x, t, q.min(*g), 8));
                        }
                    }
                }
                Op::Sub(i, f, q) => {
                    s.sub(w, i, f, q);
                }
                Op::Unsub(i, f) => {
                    s.n[i].c.push(&unsubscribe(8, &[f]));
                    s.n[i].subs.remove(f);
                }
                Op::Lose(i) => {
                    s.link(i).reset(true);
                    settle(w);
                    let st = s.n[i].c.take_state();
                    if st.is_none() {
                        w.fail("alive/state", format!("client {i} does not notice that its connection is lost: {}", s.n[i].c.why()));
                        return;
                    }
                    s.start(w, i, st, false);
                }
                Op::Again(i, clean) => {
                    s.n[i].c.push_packet(Packet::Disconnect(Default::default()));
                    settle(w);
                    let st = s.n[i].c.take_state();
                    if st.is_none() {
                        w.fail("alive/stop", format!("client {i} does not stop: {}", s.n[i].c.why()));
                        return;
                    }
                    s.start(w, i, st, clean);
                    if clean {
                        s.n[i].subs.clear();
                    }
                }
                Op::Pass(ms) => w.advance(ms),
                Op::Take(i) => {
                    let c = Cli { lis: TcpListener::listen(0).unwrap(), peer: None, prod: None, cons: None, sh: Default::default() };
                    let old = std::mem::replace(&mut s.n[i].c, c);
                    s.start(w, i, None, false);
                    if old.over().is_none() {
                        w.fail("alive/old", format!("the client {i} whose session has been taken over goes on"));
                        return;
                    }
                }
            }
            s.drain(w);
            s.healthy(w);
            for (i, x) in want.iter().enumerate() {
                s.judge(w, i, x, false);
            }
        }
    });
}
/// Publishers push everything, the application reads later; nothing settles in between.
struct Burst {
    /// (publisher, topic, quality, size)
    msgs: Vec<(usize, &'static str, u8, usize)>,
    /// (subscriber, filter, quality)
    subs: Vec<(usize, &'static str, u8)>,
    /// consumer channel sizes
    size: Vec<u16>,
    net: Option<(usize, usize, usize)>,
    tls: bool,
}
fn burst(ctx: &Ctx, name: &str, x: Cfg, b: &[Burst]) {
    explore(ctx, name, x, &|w| {
        w.accept = Some(ALWAYS);
        let b = &b[w.pick(b.len())];
        let cs: Vec<(u16, How)> = b.size.iter().map(|s| (*s, plain())).collect();
        let mut s = w.quiet(|w| {
            if let Some((c, r, x)) = b.net {
                shape(c, r, x)
            }
            let mut s = E2e::boot_tls(w, &cs, b.tls);
            for (i, f, q) in &b.subs {
                s.sub(w, *i, f, *q);
            }
            s.drain(w);
            s
        });
        let mut want: Vec<Vec<Sent>> = vec![vec![]; cs.len()];
        for (i, t, q, z) in &b.msgs {
            if w.dead {
                return;
            }
            let x = s.publish(w, *i, t, *q, *z);
            for (j, f, g) in &b.subs {
                if covers(f, t) {
                    want[*j].push(sent(x, t, (*q).min(*g), (*z).max(4)));
                }
            }
            w.run_or_stop();
        }
        w.quiet(|w| {
            s.drain(w);
            // client and broker both wait for the other one to read (see known_findings.txt)
            for i in 0..s.n.len() {
                let l = s.link(i);
                let full = |p: &tokio::sim::net::Shared| {
                    let p = p.lock().unwrap();
                    p.buf.len() >= p.cap
                };
                if full(&l.up) && full(&l.down) && b.subs.iter().any(|x| x.0 == i) && b.msgs.iter().any(|x| x.0 == i) {
                    w.fail("stall/publisher-subscribed-to-itself", "client and broker both write to each other, nobody reads, for ever");
                    return;
                }
            }
            s.healthy(w);
            for (i, x) in want.iter().enumerate() {
                s.judge(w, i, x, false);
            }
        });
    });
}
pub fn e01(ctx: &Ctx) {
    ctx.rule("real clients and the real broker in one process: every history of publish, subscribe, unsubscribe, connection loss, stop, restart and waiting to the stated depth; bursts of two publishers under every schedule within the deviation bound; every size of network piece; slow applications; the connection of publisher or subscriber cut at every byte");
    let t = ctx.thorough;
    // ---- histories
    let al = vec![
        Op::Pub(0, "x/y", 0),
        Op::Pub(0, "x/y", 1),
        Op::Pub(1, "x/y", 1),
        Op::Sub(0, "x/+", 1),
        Op::Sub(1, "x/y", 1),
        Op::Sub(1, "#", 0),
        Op::Unsub(1, "x/y"),
        Op::Unsub(0, "x/+"),
        Op::Lose(1),
        Op::Again(1, false),
        Op::Again(0, true),
        Op::Pass(200_000),
        Op::Take(1),
    ];
    // one filter per client and topic at a time
    let al: Vec<Op> = al.into_iter().filter(|o| !matches!(o, Op::Sub(1, "#", 0))).collect();
    histories(ctx, "histories of two clients", if t { 6 } else { 5 }, &al, 2);
    let al = vec![
        Op::Pub(0, "x", 1),
        Op::Pub(1, "x", 1),
        Op::Pub(2, "y", 0),
        Op::Sub(0, "#", 1),
        Op::Sub(1, "#", 1),
        Op::Sub(2, "x", 0),
        Op::Lose(0),
        Op::Lose(1),
        Op::Again(2, false),
    ];
    histories(ctx, "histories of three clients", if t { 6 } else { 5 }, &al, 3);
    // ---- schedules
    let two = |q: u8, r: u8| Burst {
        msgs: vec![(0, "x", q, 8), (1, "x", r, 8), (0, "x", q, 8), (1, "x", r, 8)],
        subs: vec![(2, "x", 1)],
        size: vec![64, 64, 64],
        net: None,
        tls: false,
    };
    let echo = |q: u8, size: u16| Burst {
        msgs: vec![(0, "x", q, 8), (0, "x", q, 8), (0, "x", q, 8)],
        subs: vec![(0, "x", q), (1, "x", 1)],
        size: vec![64, size],
        net: None,
        tls: false,
    };
    let cross = |q: u8| Burst {
        msgs: vec![(0, "x", q, 8), (1, "y", q, 8), (0, "y", q, 200), (1, "x", q, 8)],
        subs: vec![(0, "y", 1), (1, "x", 1)],
        size: vec![2, 3],
        net: None,
        tls: false,
    };
    let b = vec![cross(0), cross(1), two(0, 0), two(1, 1), two(1, 0), echo(1, 64), echo(0, 64), echo(1, 1)];
    burst(ctx, "bursts, schedules", Cfg::all(if t { 2 } else { 1 }), &b);
    // ---- pieces
    let mut b = vec![];
    let sizes: &[usize] = if t { &[4, 100, 117, 118, 119, 120, 127, 128, 1000, 4000, 4096, 5000, 16384, 20000] } else { &[4, 100, 118, 119, 120, 128, 4096, 5000] };
    for k in [1usize, 2, 3, 5, 7, 64, 1000, usize::MAX] {
        for z in sizes {
            for q in 0..2 {
                b.push(Burst {
                    msgs: vec![(0, "x", q, 4), (0, "x", q, *z), (0, "x", q, *z), (0, "x", q, 4)],
                    subs: vec![(1, "x", 1)],
                    size: vec![64, 64],
                    net: Some((usize::MAX, k, usize::MAX)),
                    tls: false,
                });
                b.push(Burst {
                    msgs: vec![(0, "x", q, *z), (0, "x", q, 4), (0, "x", q, *z)],
                    subs: vec![(1, "x", 1), (0, "x", 1)],
                    size: vec![64, 64],
                    net: Some((usize::MAX, usize::MAX, k)),
                    tls: false,
                });
                b.push(Burst {
                    msgs: vec![(0, "x", q, *z), (0, "x", q, 4), (0, "x", q, *z)],
                    subs: vec![(1, "x", 1)],
                    size: vec![64, 1],
                    net: Some(((64 * (k.min(64))).max(128), 17, k)),
                    tls: false,
                });
            }
        }
    }
    burst(ctx, "network pieces and windows", Cfg::NONE, &b);
    let b: Vec<Burst> = (0..2)
        .map(|q| Burst {
            msgs: vec![(0, "x", q, 300), (0, "x", q, 300), (0, "x", q, 300)],
            subs: vec![(0, "x", 1)],
            size: vec![64],
            net: Some((200, usize::MAX, usize::MAX)),
            tls: false,
        })
        .collect();
    burst(ctx, "own messages through narrow windows", Cfg::all(1), &b);
    burst(ctx, "over TLS, schedules", Cfg::all(if t { 2 } else { 1 }), &tls_bursts(&[(usize::MAX, usize::MAX, usize::MAX)], &[8]));
    let ks: Vec<(usize, usize, usize)> =
        [1usize, 3, 17, 100, 1000].into_iter().flat_map(|k| [(usize::MAX, k, usize::MAX), (usize::MAX, usize::MAX, k), (700, 500, k)]).collect();
    burst(ctx, "over TLS, pieces and windows", Cfg::NONE, &tls_bursts(&ks, &[8, 1000, 5000, 16384, 40000]));
    // ---- slow application
    let b: Vec<Burst> = (1..=4)
        .flat_map(|size| {
            (0..2).map(move |q| Burst {
                msgs: vec![(0, "x", q, 8); 12],
                subs: vec![(1, "x", 1)],
                size: vec![64, size],
                net: None,
                tls: false,
            })
        })
        .collect();
    burst(ctx, "slow application", Cfg::all(1), &b);
    // ---- everything, then the end
    explore(ctx, "stopped after publishing, schedules", Cfg::all(if t { 2 } else { 1 }), &|w| {
        w.accept = Some(ALWAYS);
        let qs: &[u8] = [&[0u8, 0, 0][..], &[1, 1, 1], &[0, 1], &[1]][w.pick(4)];
        let mut s = w.quiet(|w| {
            let mut s = E2e::boot(w, &[(64, plain()), (2, plain())]);
            s.sub(w, 1, "x", 1);
            s.drain(w);
            s
        });
        let mut want = vec![];
        for q in qs {
            let x = s.publish(w, 0, "x", *q, 8);
            let mut y = sent(x, "x", *q, 8);
            // one that leaves without waiting for PUBACK has the message resent when it resumes
            y.must = *q == 0;
            want.push(y);
        }
        s.n[0].c.push_packet(Packet::Disconnect(Default::default()));
        s.n[0].up = false;
        w.run_or_stop();
        w.quiet(|w| {
            s.drain(w);
            s.healthy(w);
            if s.n[0].c.over() != Some(true) {
                w.fail("alive/stop", format!("client 0 does not stop: {}", s.n[0].c.why()));
            }
            s.wires(w);
            // resumed, it sends again what was not acknowledged
            let st = s.n[0].c.take_state();
            s.start(w, 0, st, false);
            s.drain(w);
            s.healthy(w);
            want.iter_mut().for_each(|s| s.must = true);
            s.judge(w, 1, &want, true);
        });
    });
    // ---- wills
    explore(ctx, "wills", Cfg::all(if t { 2 } else { 1 }), &|w| {
        w.accept = Some(ALWAYS);
        let q = w.pick(2) as u8;
        let end = w.pick(4);
        let mut s = w.quiet(|w| {
            let how: How = Arc::new(move |b: ClientBuilder| {
                b.with_will_message(vaux_mqtt::WillMessage::new("x".into(), &payload(0, 99, 8), q.try_into().unwrap(), false))
            });
            let mut s = E2e::boot(w, &[(64, how), (64, plain())]);
            s.sub(w, 1, "x", 1);
            s.drain(w);
            s
        });
        let mut want = vec![];
        let x = s.publish(w, 0, "x", 1, 8);
        want.push(sent(x, "x", 1, 8));
        w.run();
        // a PUBACK that cannot be written ends the connection before DISCONNECT is read
        w.quiet(settle);
        s.n[0].up = false;
        match end {
            0 => {
                s.n[0].c.push_packet(Packet::Disconnect(Default::default()));
            }
            1 => s.link(0).reset(true),
            2 => {
                if let Some(a) = &s.n[0].c.sh.lock().unwrap().abort {
                    a.abort()
                }
            }
            _ => {
                // the application forgets its client: the producer's channel ends
                s.n[0].c.prod = None;
                s.n[0].c.sh.lock().unwrap().client = None;
            }
        }
        w.run_or_stop();
        w.quiet(|w| {
            s.drain(w);
            s.healthy(w);
            if end != 0 {
                want.push(sent((0, 99), "x", q, 8));
            }
            s.judge(w, 1, &want, false);
        });
    });
    losses(ctx);
}
fn tls_bursts(net: &[(usize, usize, usize)], sizes: &[usize]) -> Vec<Burst> {
    let mut v = vec![];
    for n in net {
        for z in sizes {
            for q in 0..2 {
                v.push(Burst {
                    msgs: vec![(0, "x", q, *z), (0, "x", q, 8), (0, "x", q, *z)],
                    subs: vec![(1, "x", 1)],
                    size: vec![64, 64],
                    net: Some(*n),
                    tls: true,
                });
            }
        }
    }
    v
}
/// What S03 asks of TLS: nothing that was written stays behind in the TLS session.
pub fn tls_writes(ctx: &Ctx) {
    // windows that hold the session tickets: with less, a CONNECT in two records and the tickets
    // wait for each other for ever
    let ks = [(usize::MAX, usize::MAX, usize::MAX), (450, usize::MAX, usize::MAX), (700, 500, 17)];
    burst(ctx, "written over TLS", Cfg::all(1), &tls_bursts(&ks, &[8, 1000, 20000]));
    if ctx.thorough {
        burst(ctx, "written over TLS, two deviations", Cfg::all(2), &tls_bursts(&ks[..1], &[8, 1000]));
    }
}
/// Cuts at every byte, then restart from the session state.
fn losses(ctx: &Ctx) {
    let t = ctx.thorough;
    explore(ctx, "publisher cut at every byte", Cfg::all(if t { 1 } else { 0 }), &|w| {
        w.accept = Some(ALWAYS);
        let qs = [[1u8, 1, 1], [1, 0, 1], [0, 1, 1]][w.pick(3)];
        let lost = w.pick(2) == 1;
        let up = w.pick(2) == 1;
        // a PUBLISH is 17 or 15 bytes, a PUBACK 4 to 6
        let at = w.pick(if up { 54 } else { 20 });
        let mut s = w.quiet(|w| {
            let mut s = E2e::boot(w, &[(64, plain()), (64, plain())]);
            s.sub(w, 1, "x", 1);
            s.drain(w);
            s
        });
        let l = s.link(0);
        {
            let mut p = if up { l.up.lock().unwrap() } else { l.down.lock().unwrap() };
            p.write_err = Some(std::io::ErrorKind::ConnectionReset);
            p.fail_after = at;
        }
        let mut want = vec![];
        for q in qs {
            if !s.n[0].up || s.n[0].c.over().is_some() {
                break;
            }
            let x = s.publish(w, 0, "x", q, 8);
            let mut y = sent(x, "x", q, 8);
            w.run();
            // still in the producer's channel when the client ends: not the client's business yet
            // (the channel is emptied too when a client ends that a deviation has kept from ending before)
            let calm = w.rec.borrow().trace.is_empty();
            let taken = s.n[0].c.prod.as_ref().is_some_and(|p| p.capacity() == p.max_capacity() && (calm || !p.is_closed()));
            y.must = q == 1 && taken;
            want.push(y);
        }
        l.reset(lost);
        s.n[0].up = false;
        settle(w);
        let Some(st) = s.n[0].c.take_state() else {
            w.fail("alive/state", format!("the client does not notice that its connection is lost: {}", s.n[0].c.why()));
            return;
        };
        s.start(w, 0, Some(st), false);
        w.quiet(|w| {
            s.drain(w);
            // afterwards all is as before
            let x = s.publish(w, 0, "x", 1, 8);
            want.push(sent(x, "x", 1, 8));
            s.drain(w);
            s.healthy(w);
            s.judge(w, 1, &want, true);
        });
    });
    explore(ctx, "subscriber lost with messages on their way", Cfg::all(if t { 1 } else { 0 }), &|w| {
        w.accept = Some(ALWAYS);
        let size = 1 + w.pick(3) as u16;
        let reads = w.pick(4);
        let lost = w.pick(2) == 1;
        let stop = w.pick(2) == 1;
        let cuts = 1 + w.pick(2);
        let mut s = w.quiet(|w| {
            let mut s = E2e::boot(w, &[(64, plain()), (size, plain())]);
            s.sub(w, 1, "x", 1);
            s.drain(w);
            s
        });
        let mut want = vec![];
        for _ in 0..5 {
            let x = s.publish(w, 0, "x", 1, 8);
            want.push(sent(x, "x", 1, 8));
            w.run();
        }
        settle(w);
        for _ in 0..cuts {
            for _ in 0..reads {
                let p = s.n[1].c.cons.as_mut().and_then(|c| c.try_recv().ok());
                if let Some(p) = p {
                    let p = seen(&p);
                    w.note(format!("client 1 gets {}", show(&p)));
                    s.n[1].got.push(p);
                }
                settle(w);
            }
            if stop {
                s.n[1].c.push_packet(Packet::Disconnect(Default::default()));
            } else {
                s.link(1).reset(lost);
            }
            settle(w);
            // what the client has handed over stays with the application; with a full consumer it looks at
            // nothing else
            for _ in 0..8 {
                s.read(w, 1);
                settle(w);
            }
            let Some(st) = s.n[1].c.take_state() else {
                w.fail("alive/state", format!("the client does not end: {}", s.n[1].c.why()));
                return;
            };
            s.start(w, 1, Some(st), false);
        }
        w.quiet(|w| {
            s.drain(w);
            let x = s.publish(w, 0, "x", 1, 8);
            want.push(sent(x, "x", 1, 8));
            s.drain(w);
            s.healthy(w);
            s.judge(w, 1, &want, true);
        });
    });
}
