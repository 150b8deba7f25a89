//! Client checks about hand-over, keep-alive, starting and stopping, and what CONNECT announces.
use crate::client::*;
use crate::explore::*;
use crate::net::*;
use crate::sched::settle;
use mcbase::Ctx;
use refmqtt::{P, PV, Will};
use std::collections::VecDeque;
use std::sync::Arc;
use std::time::Duration;
use tokio::sync::mpsc::{self, Receiver};
use vaux_client::{ClientBuilder, MqttError};
use vaux_mqtt::{Packet, PacketType};

/// A started client whose broker has answered CONNECT.
fn up(w: &mut World, how: How, props: Vec<refmqtt::Prop>) -> Cli {
    w.quiet(|w| {
        let mut c = Cli::new();
        c.launch(w, how, None, true, None);
        settle(w);
        if w.dead {
            return c;
        }
        if !c.accept() {
            w.fail("start/connect", format!("the client does not connect: {}", c.why()));
            return c;
        }
        match &c.wire()[..] {
            [P::Connect { .. }] => {}
            v => {
                w.fail("start/connect", format!("instead of CONNECT the client sends {}", shows(v)));
                return c;
            }
        }
        c.peer.as_ref().unwrap().send(&connack(false, props));
        settle(w);
        if c.connected() != Some(true) {
            w.fail("start/connected", format!("CONNACK is received, but the client is {}", c.why()));
        }
        c
    })
}
fn trouble(w: &mut World, c: &Cli) {
    if let Some(m) = mcbase::take_panic() {
        w.fail("panic/panic", m);
    }
    if let Some(g) = c.peer.as_ref().and_then(|p| p.garbled.clone()) {
        w.fail("garbled/garbled", g);
    }
}

// ------------------------------------------------------------------ L05

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum H {
    /// the broker sends a PUBLISH of this quality
    Pub(u8),
    /// ... a packet of another type
    SubAck,
    Pong,
    /// the application takes one packet from the consumer, from the filtered one
    Read,
    ReadF,
    /// the application sends
    Send(u8),
    Ping,
    Pass,
    Close,
    Reset,
    Bye,
    /// the application stops the client
    Stop,
    /// the connection fails, which shows when the client writes
    Fail,
}
struct Hand {
    c: Cli,
    filtered: Option<(PacketType, Receiver<Packet>)>,
    pong: bool,
    auto: bool,
    /// what must arrive at (consumer, filtered consumer), still
    due: (VecDeque<P>, VecDeque<P>),
    acked: Vec<u16>,
    got: Vec<u16>,
    n: u16,
    m: u32,
    held: usize,
    up: bool,
    qos_in: usize,
}
fn type_of(p: &P) -> PacketType {
    PacketType::from(p.type_nibble() << 4)
}
impl Hand {
    fn new(w: &mut World, size: u16, filter: Option<(PacketType, usize)>, pong: bool, auto: bool) -> Hand {
        let mut filtered = None;
        let mut tx = None;
        if let Some((t, n)) = filter {
            let (a, b) = mpsc::channel(n);
            filtered = Some((t, b));
            tx = Some((t, a));
        }
        let how: How = Arc::new(move |b: ClientBuilder| {
            let b = b.with_client_id("cli").with_channel_size(size).with_pingresp(pong).with_auto_ack(auto).with_keep_alive(Duration::from_secs(40));
            match &tx {
                Some((t, a)) => b.with_filtered_consumer(*t, a.clone()),
                None => b,
            }
        });
        Hand { c: up(w, how, vec![]), filtered, pong, auto, due: Default::default(), acked: vec![], got: vec![], n: 0, m: 0, held: 0, up: true, qos_in: 0 }
    }
    fn incoming(&mut self, p: P) {
        self.c.peer.as_ref().unwrap().send(&p);
        if p == P::PingResp && !self.pong {
            return;
        }
        match &self.filtered {
            Some((t, _)) if *t == type_of(&p) => self.due.1.push_back(p),
            _ => self.due.0.push_back(p),
        }
        self.held += 1;
    }
    fn take(&mut self, w: &mut World, f: bool) -> bool {
        let r = if f { self.filtered.as_mut().and_then(|x| x.1.try_recv().ok()) } else { self.c.cons.as_mut().and_then(|c| c.try_recv().ok()) };
        let Some(p) = r else { return false };
        let p = seen(&p);
        let due = if f { &mut self.due.1 } else { &mut self.due.0 };
        let which = if f { "filtered consumer" } else { "consumer" };
        match due.pop_front() {
            Some(x) if x.clone().canon() == p.clone().canon() => {
                if let P::Publish { pid: Some(i), .. } = p {
                    self.got.push(i)
                }
                self.held -= 1;
                true
            }
            x => {
                w.fail("order/order", format!("the {which} gets {} instead of {}", show(&p), x.map(|x| show(&x)).unwrap_or("nothing".into())));
                false
            }
        }
    }
    /// What the client has sent: acknowledgements are recorded, the rest must be `want`.
    fn sent(&mut self, w: &mut World, what: &str, want: &[P], pings: bool) {
        let mut rest = vec![];
        for p in self.c.wire() {
            match p {
                P::Ack { kind: 4 | 5, pid, .. } if pid <= self.n && !self.acked.contains(&pid) => self.acked.push(pid),
                P::PingReq if pings && !want.contains(&P::PingReq) => {}
                _ => rest.push(p),
            }
        }
        let strip = |v: &[P]| -> Vec<String> {
            v.iter()
                .map(|p| match p {
                    P::Publish { qos, payload, .. } => format!("q{qos}{}", String::from_utf8_lossy(payload)),
                    p => show(p),
                })
                .collect()
        };
        if strip(&rest) != strip(want) {
            w.fail("send/blocked", format!("{what} while {} packets wait for the application: the client must send {} but sends {}; it is {}", self.held, shows(want), shows(&rest), self.c.why()));
        }
    }
    fn step(&mut self, w: &mut World, h: H) {
        w.note(format!("{h:?}"));
        let mut want = vec![];
        match h {
            H::Pub(q) => {
                self.n += 1;
                if q > 0 && self.auto {
                    self.qos_in += 1;
                }
                self.incoming(publish("t", q, self.n, format!("i{}", self.n).as_bytes()));
            }
            H::SubAck => {
                self.n += 1;
                self.incoming(P::SubAck { pid: self.n, props: vec![], reasons: vec![1] });
            }
            H::Pong => self.incoming(P::PingResp),
            H::Read => {
                self.take(w, false);
            }
            H::ReadF => {
                self.take(w, true);
            }
            H::Send(q) => {
                self.m += 1;
                let what = format!("o{}", self.m);
                self.c.push_packet(app_publish(q, &what, None));
                want.push(publish("t", q, 1, what.as_bytes()));
            }
            H::Ping => {
                self.c.push(&P::PingReq);
                want.push(P::PingReq);
            }
            H::Pass => w.advance(41_000),
            H::Close => self.c.peer.as_mut().unwrap().close(),
            H::Reset => self.c.peer.as_ref().unwrap().reset(),
            H::Bye => self.c.peer.as_ref().unwrap().send(&disconnect(0x8b)),
            H::Stop => {
                self.c.push(&disconnect(0));
            }
            H::Fail => {
                self.c.peer.as_ref().unwrap().reset();
                for _ in 0..3 {
                    self.c.push(&P::PingReq);
                }
            }
        }
        if w.dead {
            return;
        }
        w.run_or_stop();
        if matches!(h, H::Send(_) | H::Ping | H::Pass) {
            settle(w);
        }
        if h == H::Pass {
            let v = self.c.wire();
            if !v.contains(&P::PingReq) && self.c.over().is_none() {
                w.fail("send/keep-alive", format!("{} packets wait for the application and the client does not ping", self.held));
            }
            for p in v {
                if let P::Ack { kind: 4 | 5, pid, .. } = p {
                    self.acked.push(pid)
                }
            }
        } else if matches!(h, H::Close | H::Reset | H::Bye | H::Stop | H::Fail) {
            self.up = false;
            settle(w);
            for p in self.c.wire() {
                if let P::Ack { kind: 4 | 5, pid, .. } = p {
                    self.acked.push(pid)
                }
            }
        } else {
            // held back by the schedule, it may come with the next operation
            if !want.is_empty() || self.c.peer.as_ref().unwrap().unread() > 0 {
                self.sent(w, &format!("{h:?}"), &want, true);
            }
        }
        trouble(w, &self.c);
        if self.up && self.c.over().is_some() && !w.dead {
            w.fail("alive/ended", format!("{h:?}: the client ended: {}", self.c.why()));
        }
    }
    /// The application reads everything that is there.
    fn drain(&mut self, w: &mut World) {
        loop {
            settle(w);
            let a = self.take(w, false);
            let b = !w.dead && self.take(w, true);
            if w.dead {
                return;
            }
            if !a && !b {
                break;
            }
        }
        for p in self.c.wire() {
            if let P::Ack { kind: 4 | 5, pid, .. } = p {
                self.acked.push(pid)
            }
        }
        if self.up && (!self.due.0.is_empty() || !self.due.1.is_empty()) {
            w.fail("lost/lost", format!("never handed over: {} {}", shows(self.due.0.make_contiguous()), shows(self.due.1.make_contiguous())));
        }
        if let Some(i) = self.acked.iter().find(|i| !self.got.contains(i)) {
            w.fail("lost/acknowledged", format!("message {i} was acknowledged and never handed over"));
        }
        if self.up && self.acked.len() != self.qos_in && !w.dead {
            w.fail("ack/missing", format!("{} of {} messages acknowledged after all were taken", self.acked.len(), self.qos_in));
        }
        if self.up && !w.dead && self.c.connected() != Some(true) {
            w.fail("alive/ended", format!("the client ended: {}", self.c.why()));
        }
        if !self.up && !w.dead {
            if self.c.over().is_none() {
                w.fail("alive/running", "the connection has ended, the application has taken everything, and the client still runs");
            }
        }
    }
}
pub fn l05(ctx: &Ctx) {
    ctx.rule("every sequence of arrivals, reads of one or two consumers, application sends, keep-alive ticks and losses to the stated depth with queues of one and two; short ones under every schedule to the stated bound");
    let deep = ctx.thorough;
    let sets: &[(u16, Option<(PacketType, usize)>, bool)] = &[
        (1, None, false),
        (2, None, true),
        (1, Some((PacketType::Publish, 1)), false),
        (2, Some((PacketType::SubAck, 1)), false),
        (1, Some((PacketType::PingResp, 1)), true),
    ];
    let run = |w: &mut World, auto: bool, a: &[H], depth: usize| {
        let (size, f, pong) = sets[w.pick(sets.len())];
        let mut h = Hand::new(w, size, f, pong, auto);
        for _ in 0..depth {
            if w.dead {
                return;
            }
            let en: Vec<H> = a.iter().copied().filter(|x| h.up && (f.is_some() || *x != H::ReadF)).collect();
            if en.is_empty() {
                break;
            }
            let k = w.pick(en.len());
            h.step(w, en[k]);
        }
        w.quiet(|w| {
            if !w.dead {
                h.drain(w)
            }
        });
    };
    explore(ctx, "hand-over", Cfg::NONE, &|w| {
        run(w, true, &[H::Pub(0), H::Pub(1), H::Pub(2), H::SubAck, H::Pong, H::Read, H::ReadF, H::Send(1), H::Pass, H::Close, H::Bye, H::Stop, H::Fail], if deep { 5 } else { 4 })
    });
    explore(ctx, "manual acknowledgement", Cfg::NONE, &|w| {
        run(w, false, &[H::Pub(0), H::Pub(1), H::SubAck, H::Pong, H::Read, H::ReadF, H::Send(0), H::Pass, H::Close], if deep { 6 } else { 4 })
    });
    explore(ctx, "full consumer", Cfg::NONE, &|w| run(w, true, &[H::Pub(1), H::Read, H::ReadF, H::Send(0), H::Stop, H::Reset, H::Fail], if deep { 8 } else { 7 }));
    explore(ctx, "hand-over under schedules", Cfg::all(if deep { 2 } else { 1 }), &|w| {
        run(w, true, &[H::Pub(1), H::SubAck, H::Read, H::ReadF, H::Send(1), H::Stop, H::Fail], if deep { 4 } else { 3 })
    });
    // a consumer for each of several types
    explore(ctx, "several consumers", Cfg::NONE, &|w| {
        let kinds: Vec<P> = vec![
            publish("t", 0, 0, b"x"),
            P::SubAck { pid: 9, props: vec![], reasons: vec![0] },
            P::UnsubAck { pid: 8, props: vec![], reasons: vec![0] },
            P::PingResp,
            ack(4, 1),
            ack(5, 2),
            ack(6, 5),
            ack(7, 2),
        ];
        let set: Vec<usize> = (0..kinds.len()).filter(|_| w.pick(2) == 1).collect();
        let mut rx: Vec<Option<Receiver<Packet>>> = vec![];
        let mut tx = vec![];
        for i in 0..kinds.len() {
            if set.contains(&i) {
                let (a, b) = mpsc::channel(4);
                tx.push((type_of(&kinds[i]), a));
                rx.push(Some(b));
            } else {
                rx.push(None);
            }
        }
        let how: How = Arc::new(move |b: ClientBuilder| {
            let mut b = b.with_client_id("cli").with_pingresp(true);
            for (t, a) in &tx {
                b = b.with_filtered_consumer(*t, a.clone());
            }
            b
        });
        let mut c = up(w, how, vec![]);
        if w.dead {
            return;
        }
        c.push_packet(app_publish(1, "a", None));
        c.push_packet(app_publish(2, "b", None));
        c.peer.as_ref().unwrap().send(&publish("t", 2, 5, b"five"));
        settle(w);
        c.app();
        for r in rx.iter_mut().flatten() {
            while r.try_recv().is_ok() {}
        }
        for (i, p) in kinds.iter().enumerate() {
            c.peer.as_ref().unwrap().send(p);
            settle(w);
            let mut got = vec![(kinds.len(), c.app())];
            for (j, r) in rx.iter_mut().enumerate() {
                let mut v = vec![];
                while let Some(Ok(p)) = r.as_mut().map(|r| r.try_recv()) {
                    v.push(seen(&p));
                }
                got.push((j, v));
            }
            got.retain(|x| !x.1.is_empty());
            let to = if set.contains(&i) { i } else { kinds.len() };
            // (the library gives an UNSUBACK an empty reason string when it encodes it again)
            for p in got.iter_mut().flat_map(|x| x.1.iter_mut()) {
                if let P::UnsubAck { props, .. } = p {
                    props.clear();
                }
            }
            if got.len() != 1 || got[0].0 != to || canon(&got[0].1) != canon(&[p.clone()]) {
                let name = |j: usize| kinds.get(j).map(|k| format!("the consumer for {:?}", type_of(k))).unwrap_or("the default consumer".into());
                w.fail("order/consumer", format!("{} must go to {}, but there is {:?}; client {}", show(p), name(to), got.iter().map(|x| (name(x.0), shows(&x.1))).collect::<Vec<_>>(), c.why()));
                return;
            }
        }
        trouble(w, &c);
        w.note(format!("{set:?}"));
    });
    // one consumer is full, the other has room: what the application never gets holds nothing back
    explore(ctx, "one consumer full", Cfg::NONE, &|w| {
        let (size, pong) = (1 + w.pick(2) as u16, w.pick(2) == 1);
        let mut h = Hand::new(w, size, Some((PacketType::Publish, 2)), pong, true);
        for _ in 0..size {
            h.step(w, H::SubAck);
        }
        let first: Vec<H> = [vec![H::Pong], vec![H::Pong, H::Pong], vec![H::Send(1), H::Pong], vec![]][w.pick(4)].clone();
        // a PINGRESP that is asked for waits for its consumer like any packet
        if pong && first.contains(&H::Pong) {
            return;
        }
        for x in first {
            h.step(w, x);
        }
        let n = 1 + w.pick(2);
        for _ in 0..n {
            let q = 1 + w.pick(2) as u8;
            h.step(w, H::Pub(q));
        }
        settle(w);
        for _ in 0..n {
            if !w.dead && !h.take(w, true) {
                w.fail("lost/held-back", format!("the consumer for PUBLISH has room and a PUBLISH is not handed over; the client is {}", h.c.why()));
            }
        }
        if !w.dead {
            h.drain(w);
        }
    });
    // many packets, in bursts, through a small queue
    explore(ctx, "bursts", Cfg::NONE, &|w| {
        let (size, burst, reads, q) = ([1, 2, 3][w.pick(3)], [1, 2, 5, 20][w.pick(4)], [1, 3, 7][w.pick(3)], w.pick(3) as u8);
        let mut h = Hand::new(w, size, None, false, true);
        for _ in 0..if deep { 60 } else { 20 } {
            for _ in 0..burst {
                if w.dead {
                    return;
                }
                h.step(w, H::Pub(q));
            }
            for _ in 0..reads {
                if w.dead {
                    return;
                }
                h.step(w, H::Read);
            }
            w.obs.clear();
        }
        h.drain(w);
        w.note(format!("queue {size}, bursts of {burst}, {reads} reads, QoS {q}"));
    });
}

// ------------------------------------------------------------------ L06

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum K {
    Nothing,
    In(u8),
    Pong,
    SubAck,
    App,
    AppPing,
    Read,
}
pub fn l06(ctx: &Ctx) {
    ctx.rule("every placement of inbound and application packets on a grid of a third of the interval, for keep-alives configured, announced by the server, zero and switched off, with eager and absent readers");
    let deep = ctx.thorough;
    // (configured ms, server's s)
    let all: &[(u64, Option<u16>)] = &[(30_000, None), (45_500, None), (30_000, Some(12)), (60_000, Some(90)), (30_000, Some(1))];
    let busy = |w: &mut World, ka: (u64, Option<u16>), enabled: bool, auto: bool, eager: bool, alphabet: &[K], slots: usize| {
        let how: How = Arc::new(move |b: ClientBuilder| {
            b.with_client_id("cli").with_keep_alive(Duration::from_millis(ka.0)).with_keep_alive_enabled(enabled).with_auto_ack(auto).with_channel_size(2)
        });
        let mut c = up(w, how, ka.1.map(|k| pr(0x13, PV::U16(k))).into_iter().collect());
        if w.dead {
            return;
        }
        // the interval in force
        let force = match ka.1 {
            Some(k) => k as u64 * 1000,
            None => ka.0.div_ceil(1000).min(65_535) * 1000,
        };
        let step = force / 3;
        let (mut last, mut own) = (w.now, 0);
        let mut app = 0;
        for slot in 0..slots {
            let e = alphabet[w.pick(alphabet.len())];
            let b = c.peer.as_ref().unwrap();
            let mut appd = false;
            match e {
                K::Nothing | K::Read => {}
                K::In(q) => b.send(&publish("t", q, 1 + slot as u16, b"x")),
                K::Pong => b.send(&P::PingResp),
                K::SubAck => b.send(&P::SubAck { pid: 9, props: vec![], reasons: vec![0] }),
                K::App => appd = c.push_packet(app_publish(0, "y", None)),
                K::AppPing => appd = c.push(&P::PingReq),
            }
            if appd {
                app += 1;
            }
            if e == K::Read {
                c.app();
            }
            if eager {
                settle(w);
                c.app();
            }
            // one packet each second is far more than any interval in the list needs
            let mut left = step;
            while left > 0 {
                let d = left.min((force / 12).max(250));
                w.advance(d);
                left -= d;
                let v = c.wire();
                trouble(w, &c);
                if w.dead {
                    return;
                }
                if !v.is_empty() {
                    last = w.now;
                }
                own += v.iter().filter(|p| **p == P::PingReq).count();
                if c.over().is_some() {
                    w.fail("alive/ended", format!("{e:?}: the client ended: {}", c.why()));
                    return;
                }
                // seen at the end of each step only
                if enabled && w.now - last > force {
                    w.fail("silent/silent", format!("keep-alive {force} ms: nothing sent for {} ms at {} ms", w.now - last, w.now));
                    return;
                }
                if w.spun {
                    w.fail("spin/spin", format!("keep-alive {force} ms: the client keeps running without waiting"));
                    return;
                }
            }
            w.note(format!("{e:?}: {own} pings"));
        }
        let quota = app + if enabled { 2 + 4 * slots / 3 } else { 0 };
        if own > quota {
            w.fail("ping/flood", format!("keep-alive {force} ms, enabled {enabled}: {own} pings in {} ms, {app} of them the application's", w.now));
        }
    };
    explore(ctx, "intervals", Cfg::NONE, &|w| {
        let ka = all[w.pick(all.len())];
        let (auto, eager) = [(true, true), (true, false), (false, true)][w.pick(3)];
        busy(w, ka, true, auto, eager, &[K::Nothing, K::In(0), K::In(1), K::Pong, K::App, K::AppPing, K::Read], if deep { 6 } else { 4 })
    });
    explore(ctx, "long intervals", Cfg::NONE, &|w| {
        let ka = [(60_000, Some(65_535)), (65_535_000, None), (70_000_000, None), (u64::MAX / 2, None), (65_534_300, None)][w.pick(5)];
        busy(w, ka, true, true, true, &[K::In(0), K::Pong, K::App], if deep { 6 } else { 5 })
    });
    explore(ctx, "pings switched off", Cfg::NONE, &|w| { let k = [None, Some(2)][w.pick(2)]; busy(w, (30_000, k), false, true, true, &[K::Nothing, K::In(1), K::AppPing, K::App], if deep { 6 } else { 5 }) });
    explore(ctx, "no keep-alive", Cfg::NONE, &|w| {
        let how: How = Arc::new(|b: ClientBuilder| b.with_client_id("cli").with_keep_alive(Duration::from_secs(30)));
        let mut c = up(w, how, vec![pr(0x13, PV::U16(0))]);
        let mut pings = 0;
        for _ in 0..4 {
            if w.dead {
                return;
            }
            match w.pick(3) {
                0 => {}
                1 => c.peer.as_ref().unwrap().send(&publish("t", 0, 0, b"x")),
                _ => {
                    c.push_packet(app_publish(0, "y", None));
                }
            }
            settle(w);
            if w.spun {
                w.fail("spin/spin", "the server's keep-alive is 0 and the client keeps running without waiting");
                return;
            }
            w.advance(100_000);
            pings += c.wire().iter().filter(|p| **p == P::PingReq).count();
            trouble(w, &c);
            if c.over().is_some() {
                w.fail("alive/ended", format!("the client ended: {}", c.why()));
            }
        }
        // a keep-alive of 0 asks for nothing; pinging now and then would do no harm
        if pings > 40 && !w.dead {
            w.fail("ping/flood", format!("keep-alive 0: {pings} pings in 400 s"));
        }
    });
    explore(ctx, "intervals under schedules", Cfg::all(if deep { 2 } else { 1 }), &|w| {
        busy(w, (30_000, Some(3)), true, true, true, &[K::In(1), K::App], 4)
    });
}

// ------------------------------------------------------------------ L07

fn wills() -> Vec<Option<Will>> {
    vec![
        None,
        Some(Will { props: vec![], topic: "w".into(), payload: b"gone".to_vec(), qos: 1, retain: false }),
        Some(Will {
            props: vec![pr(0x18, PV::U32(5)), pr(0x03, PV::Str("text".into())), pr(0x08, PV::Str("answer".into())), pr(0x02, PV::U32(9)), pr(0x09, PV::Bin(vec![1, 2])), pr(0x01, PV::B(1))],
            topic: "w/x".into(),
            payload: vec![],
            qos: 2,
            retain: true,
        }),
    ]
}
#[derive(Clone, Debug)]
enum Re {
    /// bytes, then what happens to the connection
    Bytes(Vec<u8>, After),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum After {
    Silence,
    Close,
    Reset,
    Half,
}
fn limit(ms: u64) -> How {
    Arc::new(move |b: ClientBuilder| b.with_client_id("cli").with_max_connect_wait(Duration::from_millis(ms)))
}
/// A start that must fail, in time and completely.
fn failed(w: &mut World, c: &mut Cli, what: &str, kept: bool) {
    trouble(w, c);
    if w.dead {
        return;
    }
    w.note(format!("{what}: {}", c.why()));
    if c.over() != Some(false) {
        w.fail("start/hangs", format!("{what}: the client is {} after its limit", c.why()));
    } else if c.connected() == Some(true) {
        w.fail("start/connected", format!("{what}: failed, but says it is connected"));
    } else if kept && c.sh.lock().unwrap().outcome.as_ref().is_some_and(|o| o.is_ok()) {
        w.fail("start/outcome", format!("{what}: counts as a success"));
    } else if c.peer.as_ref().is_some_and(|p| !p.closed() && !p.gone()) {
        w.fail("start/open", format!("{what}: failed, but the connection stays open"));
    }
}
pub fn l07(ctx: &Ctx) {
    ctx.rule("every reaction of the broker to CONNECT (each packet type, each refusal, garbage, cut after every byte, then silence, close, half-close or reset) at times around the limit; every queue of up to three packets before stop at every point; every kind of end at every point; schedules to the stated bound");
    let deep = ctx.thorough;
    let enc = |p: &P| refmqtt::encode(p, refmqtt::Form::Long);
    let full = enc(&connack(false, vec![pr(0x21, PV::U16(10)), pr(0x13, PV::U16(50)), pr(0x1f, PV::Str("why".into()))]));
    let mut bad: Vec<(String, Vec<u8>)> = vec![("nothing".into(), vec![])];
    for n in 1..full.len() {
        bad.push((format!("CONNACK cut after {n} bytes"), full[..n].to_vec()));
    }
    for r in [0x80u8, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9f] {
        bad.push((format!("CONNACK {r:#x}"), enc(&P::ConnAck { sp: false, reason: r, props: vec![] })));
    }
    for p in [P::PingResp, P::PingReq, publish("t", 0, 0, b"x"), publish("t", 1, 1, b"x"), ack(4, 1), ack(5, 1), ack(6, 1), ack(7, 1), disconnect(0), disconnect(0x8b),
        P::SubAck { pid: 1, props: vec![], reasons: vec![0] }, connect("x", true), P::Auth { reason: 0x18, props: vec![pr(0x15, PV::Str("m".into()))] }, subscribe(1, &[("t", 0)])]
    {
        bad.push((show(&p), enc(&p)));
    }
    for b in [&[0u8][..], &[0xff], &[0x20], &[0x20, 0xff, 0xff, 0xff, 0xff], &[0x20, 2, 0, 0], &[0x20, 3, 2, 0, 0], &[0x20, 3, 0, 7, 0], &[0x21, 3, 0, 0, 0], &[0x20, 0x7f], b"HTTP/1.1 400 Bad Request\r\n\r\n"] {
        bad.push((format!("bytes {b:02x?}"), b.to_vec()));
    }
    explore(ctx, "failing starts", Cfg::NONE, &|w| {
        let (what, bytes) = &bad[w.pick(bad.len())];
        let after = [After::Silence, After::Close, After::Half, After::Reset][w.pick(4)];
        let wait = [None, Some(700u64), Some(9_000)][w.pick(3)];
        let mut c = Cli::new();
        let lim = 2_000;
        c.launch(w, limit(lim), None, true, wait);
        settle(w);
        if w.dead || !c.accept() {
            w.fail("start/connect", format!("the client does not connect: {}", c.why()));
            return;
        }
        let delay = [0u64, 300][w.pick(2)];
        w.advance(delay);
        let p = c.peer.as_mut().unwrap();
        p.recv();
        p.send_raw(bytes);
        match after {
            After::Silence => {}
            After::Close => p.close(),
            After::Half => p.half_close(),
            After::Reset => p.reset(),
        }
        settle(w);
        let r = Re::Bytes(bytes.clone(), after);
        let _ = &r;
        // everything over by the limit: of try_start itself, of the CONNACK otherwise
        w.advance(wait.unwrap_or(lim).max(lim.min(wait.unwrap_or(lim))) + 200 - delay);
        settle(w);
        // try_start with more patience than the CONNACK: the task must have ended by then all the same
        failed(w, &mut c, &format!("{what}, then {after:?}, {}", wait.map(|x| format!("try_start({x})")).unwrap_or("start".into())), wait.is_none());
    });
    explore(ctx, "timely and late CONNACK", Cfg::all(1), &|w| {
        let wait = [None, Some(1_500u64), Some(4_000)][w.pick(3)];
        let lim = 3_000;
        // the shorter of both limits decides
        let end = wait.unwrap_or(lim).min(lim);
        let at = [0, 100, end / 2, end - 150, end + 1, end + 150][w.pick(6)];
        let mut c = w.quiet(|w| {
            let mut c = Cli::new();
            c.launch(w, limit(lim), None, true, wait);
            settle(w);
            c
        });
        if w.dead || !c.accept() {
            w.fail("start/connect", "the client does not connect");
            return;
        }
        w.advance(at);
        let p = c.peer.as_mut().unwrap();
        p.recv();
        p.send(&connack(false, vec![]));
        w.run_or_stop();
        settle(w);
        w.advance(110);
        settle(w);
        if at < end {
            trouble(w, &c);
            if !w.dead && (c.over().is_some() || c.connected() != Some(true)) {
                w.fail("start/refused", format!("CONNACK after {at} ms, limit {end} ms: the client is {}, connected {:?}", c.why(), c.connected()));
            }
            if !w.dead {
                c.push(&disconnect(0));
                settle(w);
                if c.over() != Some(true) {
                    w.fail("stop/outcome", format!("the client is {}", c.why()));
                }
            }
        } else {
            w.advance(10_000);
            settle(w);
            failed(w, &mut c, &format!("CONNACK after {at} ms, limit {end} ms"), false);
        }
    });
    // connecting takes part of the limit, or all of it, or for ever
    explore(ctx, "slow to connect", Cfg::NONE, &|w| {
        let wait = [None, Some(700u64), Some(1_500), Some(4_000)][w.pick(4)];
        let lim = 2_000;
        let slow = [0u64, 300, 600, 1_400, 1_900, 3_000, 100_000_000][w.pick(7)];
        let says = w.pick(2) == 1;
        let mut c = Cli::new();
        tokio::sim::net::slow(PORT, slow);
        c.launch(w, limit(lim), None, true, wait);
        settle(w);
        // try_start: all of it within its limit; start: connecting, and waiting for CONNACK
        let end = match wait {
            None if slow > lim => lim,
            None => slow + lim,
            Some(x) if slow > lim => x.min(lim),
            Some(x) => x,
        };
        let what = format!("connecting takes {slow} ms, CONNACK {}, {}", if says { "soon" } else { "never" }, wait.map(|x| format!("try_start({x})")).unwrap_or("start".into()));
        if slow < end {
            w.advance(slow + 1);
            settle(w);
            if !c.accept() {
                w.fail("start/connect", format!("{what}: the client does not connect: {}", c.why()));
                return;
            }
            c.wire();
            if says && slow + 150 < end.min(slow + lim) {
                c.peer.as_ref().unwrap().send(&connack(false, vec![]));
                settle(w);
                w.advance(120);
                settle(w);
                trouble(w, &c);
                if c.over().is_some() || c.connected() != Some(true) {
                    w.fail("start/refused", format!("{what}: the client is {}, connected {:?}", c.why(), c.connected()));
                }
                return;
            }
            w.advance(end - slow + 120);
        } else {
            w.advance(end + 120);
        }
        settle(w);
        if !c.peer.is_some() {
            c.accept();
        }
        failed(w, &mut c, &what, false);
    });
    // the broker accepts the connection and reads nothing, or too little
    explore(ctx, "a broker that does not read", Cfg::NONE, &|w| {
        let wait = [None, Some(700u64), Some(4_000)][w.pick(3)];
        let lim = 2_000;
        let room = [0usize, 1, 2, 13, 40][w.pick(5)];
        let will = [0usize, 100, 20_000][w.pick(3)];
        // when it does read after all
        let late = [None, Some(0u64), Some(300), Some(1_500)][w.pick(4)];
        let what = format!("room for {room} bytes, will of {will}, read after {late:?} ms, {}", wait.map(|x| format!("try_start({x})")).unwrap_or("start".into()));
        tokio::sim::net::shape(room, usize::MAX, usize::MAX);
        let mut c = Cli::new();
        c.launch(
            w,
            Arc::new(move |b: ClientBuilder| {
                let m = vaux_mqtt::WillMessage::new("w".into(), &vec![7; will], vaux_mqtt::QoSLevel::AtLeastOnce, false);
                let b = b.with_client_id("cli").with_max_connect_wait(Duration::from_millis(lim));
                if will > 0 { b.with_will_message(m) } else { b }
            }),
            None,
            true,
            wait,
        );
        settle(w);
        if w.dead || !c.accept() {
            w.fail("start/connect", format!("{what}: the client does not connect: {}", c.why()));
            return;
        }
        let end = wait.unwrap_or(lim).min(lim);
        if let Some(at) = late
            && at < end
        {
            w.advance(at);
            let p = c.peer.as_mut().unwrap();
            p.window(1 << 22);
            settle(w);
            let p = c.peer.as_mut().unwrap();
            let v = p.recv();
            let ok = matches!(&v[..], [P::Connect { will: x, .. }] if x.as_ref().map_or(0, |x| x.payload.len()) == will);
            trouble(w, &c);
            if !w.dead && !ok {
                w.fail("connect/packets", format!("{what}: instead of CONNECT the client sends {}", shows(&v)));
                return;
            }
            let p = c.peer.as_mut().unwrap();
            // its own sending direction is narrow too
            p.room(1 << 22);
            p.send(&connack(false, vec![]));
            settle(w);
            w.advance(110);
            settle(w);
            trouble(w, &c);
            if !w.dead && (c.over().is_some() || c.connected() != Some(true)) {
                w.fail("start/refused", format!("{what}: the client is {}, connected {:?}", c.why(), c.connected()));
            }
            return;
        }
        w.advance(end + 120);
        settle(w);
        if wait.is_some_and(|x| x > lim) {
            w.advance(wait.unwrap() - end);
            settle(w);
        }
        failed(w, &mut c, &what, wait.is_none());
    });
    // what CONNECT has no room for
    explore(ctx, "settings that cannot be sent", Cfg::NONE, &|w| {
        let wait = [None, Some(700u64)][w.pick(2)];
        let field = w.pick(8);
        let over = w.pick(2);
        let n = 65_535 + over;
        let what = format!("a setting ({field}) of {n} bytes, {}", wait.map(|x| format!("try_start({x})")).unwrap_or("start".into()));
        let long = "x".repeat(n);
        let mut conn = vaux_client::MqttConnection::new().with_host("127.0.0.1").with_port(PORT);
        if field == 1 {
            conn = conn.with_credentials(&long, "p")
        }
        if field == 2 {
            conn = conn.with_credentials("u", &long)
        }
        let mut c = Cli::new();
        c.launch_with(
            w,
            conn,
            Arc::new(move |mut b: ClientBuilder| {
                let id = if field == 0 { "x".repeat(n) } else { "cli".to_string() };
                b = b.with_client_id(&id).with_max_connect_wait(Duration::from_millis(2_000));
                if field >= 3 {
                    let t = if field == 3 { "x".repeat(n) } else { "w".into() };
                    let pl = if field == 4 { vec![1; n] } else { vec![1] };
                    let mut m = vaux_mqtt::WillMessage::new(t, &pl, vaux_mqtt::QoSLevel::AtLeastOnce, false);
                    m = match field {
                        5 => m.with_content_type("x".repeat(n)),
                        6 => m.with_response_topic("x".repeat(n)),
                        7 => m.with_correlation_data(vec![1; n]),
                        _ => m,
                    };
                    b = b.with_will_message(m);
                }
                b
            }),
            None,
            true,
            wait,
        );
        settle(w);
        if w.dead || !c.accept() {
            w.fail("start/connect", format!("{what}: the client does not connect: {}", c.why()));
            return;
        }
        let v = c.wire();
        if over == 0 {
            trouble(w, &c);
            if !w.dead && !matches!(v[..], [P::Connect { .. }]) {
                w.fail("connect/packets", format!("{what}: instead of CONNECT the client sends {}", shows(&v)));
            }
            return;
        }
        w.advance(2_200);
        settle(w);
        if !v.is_empty() {
            w.fail("connect/packets", format!("{what}: the client sends {}", shows(&v)));
            return;
        }
        failed(w, &mut c, &what, wait.is_none());
        if !w.dead && c.sh.lock().unwrap().refused.as_ref().is_some_and(|r| r.starts_with("task ended")) {
            w.fail("start/panic", format!("{what}: {}", c.why()));
        }
    });
    explore(ctx, "nobody listens", Cfg::NONE, &|w| {
        let wait = [None, Some(500u64)][w.pick(2)];
        let mut c = Cli::new();
        let l = std::mem::replace(&mut c.lis, tokio::sim::net::TcpListener::listen(1).unwrap());
        drop(l);
        c.launch(w, limit(1_000), None, true, wait);
        settle(w);
        w.advance(1_100);
        settle(w);
        failed(w, &mut c, "nobody listens", false);
        if w.dead {
            return;
        }
        // the same client tries again
        c.lis = tokio::sim::net::TcpListener::listen(PORT).unwrap();
        let Some(mut cl) = c.sh.lock().unwrap().client.take() else { return };
        let sh = c.sh.clone();
        sh.lock().unwrap().refused = None;
        w.spawn(async move {
            let r = match wait {
                None => cl.start(false).await,
                Some(ms) => cl.try_start(Duration::from_millis(ms), false).await,
            };
            match r {
                Ok(h) => {
                    sh.lock().unwrap().client = Some(cl);
                    let o = h.await.unwrap();
                    sh.lock().unwrap().outcome = Some(o);
                }
                Err(e) => sh.lock().unwrap().refused = Some(format!("{e}")),
            }
        });
        settle(w);
        if !c.accept() {
            w.fail("start/again", format!("a start that failed cannot be repeated: {}", c.why()));
            return;
        }
        c.wire();
        c.peer.as_ref().unwrap().send(&connack(false, vec![]));
        settle(w);
        w.advance(150);
        if c.connected() != Some(true) {
            w.fail("start/again", format!("a start that failed cannot be repeated: {}", c.why()));
        }
    });
    // stop with packets queued before it
    let queue = |k: usize| [app_publish(0, "a", None), app_publish(1, "b", None), app_publish(2, "c", None), to_vaux(&subscribe(5, &[("t", 1)])), to_vaux(&P::PingReq)][k].clone();
    let stops = |w: &mut World, most: usize, probes: usize| {
        let n = w.pick(most + 1);
        let ks: Vec<usize> = (0..n).map(|_| w.pick(5)).collect();
        let early = w.pick(2) == 1;
        // with a receive maximum some of them have to wait
        let quota = if probes == 6 { [None, Some(1u16)][w.pick(2)] } else { None };
        let how = w.pick(probes);
        // a broker says nothing before its CONNACK
        if early && (how == 1 || how == 2) {
            return;
        }
        let mut c = Cli::new();
        w.quiet(|w| {
            c.launch(w, Arc::new(|b: ClientBuilder| b.with_client_id("cli").with_channel_size(8)), None, true, None);
            settle(w);
            if w.dead || !c.accept() {
                w.fail("start/connect", "the client does not connect");
                return;
            }
            c.wire();
            if !early {
                c.peer.as_ref().unwrap().send(&connack(false, quota.map(|q| pr(0x21, PV::U16(q))).into_iter().collect()));
                settle(w);
            }
        });
        if w.dead {
            return;
        }
        for k in &ks {
            c.push_packet(queue(*k));
            w.run_or_stop();
        }
        // what the other side does meanwhile
        let b = c.peer.as_mut().unwrap();
        match how {
            0 => {}
            1 => b.send(&publish("t", 1, 7, b"in")),
            2 => (1..30u16).for_each(|i| b.send(&publish("t", 1, i, b"in"))),
            3 => b.half_close(),
            4 => b.send(&disconnect(0x8b)),
            _ => b.reset(),
        }
        let by_call = w.pick(2) == 0;
        let stopped = if by_call && !early {
            let mut s = c.sh.lock().unwrap();
            s.client.as_mut().and_then(|c| now(c.stop())).is_some_and(|r| r.is_ok())
        } else {
            c.push(&disconnect(0))
        };
        if !stopped && how < 3 {
            w.fail("stop/refused", "stop is refused");
            return;
        }
        // too late for these
        c.push_packet(app_publish(0, "late", None));
        w.run_or_stop();
        if early {
            c.peer.as_ref().unwrap().send(&connack(false, quota.map(|q| pr(0x21, PV::U16(q))).into_iter().collect()));
            w.run_or_stop();
        }
        settle(w);
        let v: Vec<P> = c.wire().into_iter().filter(|p| !matches!(p, P::Ack { .. })).collect();
        trouble(w, &c);
        w.note(format!("{ks:?} then stop: {} {}", shows(&v), c.why()));
        if w.dead {
            return;
        }
        if c.over().is_none() {
            w.fail("stop/hangs", "the client goes on after stop");
            return;
        }
        if c.connected() == Some(true) {
            w.fail("stop/connected", "stopped, but says it is connected");
            return;
        }
        if !c.peer.as_ref().is_some_and(|p| p.closed() || p.gone()) {
            w.fail("stop/open", "stopped, but the connection is open");
            return;
        }
        if how >= 3 {
            return;
        }
        let mut room = quota.unwrap_or(u16::MAX);
        let mut want: Vec<String> = vec![];
        for k in &ks {
            if (1..3).contains(k) {
                if room == 0 {
                    continue;
                }
                room -= 1;
            }
            want.push(["a", "b", "c", "s", "p"][*k].to_string());
        }
        want.push("d0".into());
        let got: Vec<String> = v
            .iter()
            .map(|p| match p {
                P::Publish { payload, .. } => String::from_utf8_lossy(payload).to_string(),
                P::Subscribe { .. } => "s".into(),
                P::PingReq => "p".into(),
                P::Disconnect { reason, .. } => format!("d{reason}"),
                p => show(p),
            })
            .collect();
        if got != want {
            w.fail("stop/sent", format!("queued before stop {want:?}, sent {got:?}"));
        } else if c.over() != Some(true) {
            w.fail("stop/outcome", format!("stopped, but the outcome is {}", c.why()));
        }
    };
    explore(ctx, "stop", Cfg::NONE, &|w| stops(w, if deep { 4 } else { 3 }, 6));
    explore(ctx, "stop under schedules", Cfg::all(if deep { 2 } else { 1 }), &|w| stops(w, if deep { 2 } else { 1 }, if deep { 6 } else { 3 }));
    // stop while the queue of the client is full, and the broker perhaps slow
    let full = |w: &mut World, sizes: usize| {
        let size = 1 + w.pick(sizes);
        let slow = [None, Some(0usize), Some(1), Some(5)][w.pick(4)];
        let run_between = w.pick(2) == 1;
        let q = w.pick(3);
        let twice = w.pick(2) == 1;
        let mut c = Cli::new();
        w.quiet(|w| {
            c.launch(w, Arc::new(move |b: ClientBuilder| b.with_client_id("cli").with_channel_size(size as u16)), None, true, None);
            settle(w);
            if w.dead || !c.accept() {
                w.fail("start/connect", "the client does not connect");
                return;
            }
            c.wire();
            c.peer.as_ref().unwrap().send(&connack(false, vec![]));
            settle(w);
            if let Some(n) = slow {
                c.peer.as_ref().unwrap().window(n)
            }
        });
        if w.dead {
            return;
        }
        let mut want = vec![];
        for i in 0..size * 2 + 2 {
            let qos = [0, 1, (i % 2) as u8][q];
            let name = format!("m{i}");
            if c.push_packet(app_publish(qos, &name, None)) {
                want.push(name);
            }
            if run_between {
                w.run_or_stop();
            }
        }
        let what = format!("queue of {size}, {} messages accepted, room for {slow:?}, ", want.len());
        want.push("d".into());
        let Some(mut cl) = c.sh.lock().unwrap().client.take() else { return };
        let mut f: std::pin::Pin<Box<dyn Future<Output = _> + Send>> = Box::pin(async move {
            let r = cl.stop().await;
            // stopping what is stopped does no harm
            if twice {
                let _ = cl.stop().await;
            }
            (cl, r)
        });
        let mut poll = || match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
            std::task::Poll::Ready(x) => Some(x),
            _ => None,
        };
        let mut r = poll();
        settle(w);
        if slow.is_some() {
            c.peer.as_ref().unwrap().window(1 << 22);
            settle(w);
        }
        for _ in 0..4 {
            if r.is_none() {
                r = poll();
            }
            settle(w);
        }
        if w.dead {
            return;
        }
        let Some((cl, r)) = r else {
            w.fail("stop/hangs", format!("{what}stop does not return; client {}", c.why()));
            return;
        };
        c.sh.lock().unwrap().client = Some(cl);
        if let Err(e) = r {
            w.fail("stop/refused", format!("{what}stop fails: {}", mcbase::clip(&format!("{e:?}"), 200)));
            return;
        }
        let got: Vec<String> = c
            .wire()
            .into_iter()
            .map(|p| match p {
                P::Publish { payload, .. } => String::from_utf8_lossy(&payload).to_string(),
                P::Disconnect { .. } => "d".into(),
                p => show(&p),
            })
            .collect();
        trouble(w, &c);
        w.note(format!("{what}sent {got:?}, client {}", c.why()));
        if w.dead {
            return;
        }
        if got != want {
            w.fail("stop/sent", format!("{what}queued before stop {want:?}, sent {got:?}"));
        } else if c.over() != Some(true) {
            w.fail("stop/outcome", format!("{what}stopped, but the outcome is {}", c.why()));
        } else if c.connected() == Some(true) {
            w.fail("stop/connected", format!("{what}stopped, but says it is connected"));
        } else if !c.peer.as_ref().is_some_and(|p| p.closed() || p.gone()) {
            w.fail("stop/open", format!("{what}stopped, but the connection is open"));
        }
    };
    explore(ctx, "stop behind a full queue", Cfg::NONE, &|w| full(w, if deep { 5 } else { 3 }));
    explore(ctx, "stop behind a full queue under schedules", Cfg::all(if deep { 2 } else { 1 }), &|w| full(w, if deep { 2 } else { 1 }));
    // the connection ends by itself
    let ends: Vec<(String, Vec<u8>, After)> = {
        let mut v: Vec<(String, Vec<u8>, After)> = vec![];
        for a in [After::Close, After::Half, After::Reset] {
            v.push((format!("{a:?}"), vec![], a));
            v.push((format!("PUBLISH and {a:?}"), enc(&publish("t", 1, 3, b"x")), a));
            let p = enc(&publish("t", 1, 3, b"x"));
            for n in 1..p.len() {
                v.push((format!("{n} bytes of PUBLISH and {a:?}"), p[..n].to_vec(), a));
            }
        }
        for r in [0u8, 0x81, 0x8b, 0x8d, 0x8e, 0x98] {
            v.push((format!("DISCONNECT {r:#x}"), enc(&disconnect(r)), After::Silence));
        }
        for b in [&[0u8, 0][..], &[0xf1, 0], &[0x36, 5, 0, 1, b't', 0, 1], &[0x30, 0xff, 0xff, 0xff, 0xff], &[0x20, 3, 0, 0, 0, 0x30, 0xff, 0xff, 0xff, 0xff]] {
            v.push((format!("bytes {b:02x?}"), b.to_vec(), After::Silence));
        }
        let mut big = vec![0x30];
        big.extend([0x81, 0x80, 0x04]);
        big.extend(vec![0u8; 70_000]);
        v.push(("a packet over the maximum".into(), big, After::Silence));
        v
    };
    let lost = |w: &mut World| {
        let (what, bytes, after) = &ends[w.pick(ends.len())];
        let pre = w.pick(4);
        let handler = [Some(4usize), Some(1), None][w.pick(3)];
        let (etx, mut erx) = mpsc::channel::<MqttError>(handler.unwrap_or(1));
        let full = w.pick(2) == 1 && handler == Some(1);
        if full {
            let _ = etx.try_send(MqttError::new("old", vaux_client::ErrorKind::IO));
        }
        let mut c = up(
            w,
            Arc::new(move |b: ClientBuilder| {
                let b = b.with_client_id("cli");
                if handler.is_some() { b.with_error_handler(etx.clone()) } else { b }
            }),
            vec![],
        );
        if w.dead {
            return;
        }
        for k in 0..pre {
            c.push_packet(queue(k));
            w.run_or_stop();
        }
        let p = c.peer.as_mut().unwrap();
        p.send_raw(bytes);
        match after {
            After::Silence => {}
            After::Close => p.close(),
            After::Half => p.half_close(),
            After::Reset => p.reset(),
        }
        w.run_or_stop();
        settle(w);
        trouble(w, &c);
        if w.dead {
            return;
        }
        w.note(format!("{what}: {}", c.why()));
        if c.over() != Some(false) {
            w.fail("loss/running", format!("{what}: the client is {}", c.why()));
        } else if c.connected() == Some(true) {
            w.fail("loss/connected", format!("{what}: ended, but says it is connected"));
        } else if !c.peer.as_ref().is_some_and(|p| p.closed() || p.gone()) {
            w.fail("loss/open", format!("{what}: ended, but the connection is open"));
        } else if c.take_state().is_none() {
            w.fail("loss/state", format!("{what}: no session state is handed back"));
        } else if handler.is_some() {
            let mut n = 0;
            while let Ok(e) = erx.try_recv() {
                n += (e.message() != "old") as usize;
            }
            if n == 0 && !full {
                w.fail("loss/handler", format!("{what}: the error handler is not given the error"));
            }
        }
    };
    explore(ctx, "losses", Cfg::NONE, &lost);
    explore(ctx, "losses under schedules", Cfg::all(1), &|w| {
        if deep || w.rec.borrow().points.is_empty() {
            lost(w)
        }
    });
    // ends the application causes
    explore(ctx, "application gone", Cfg::NONE, &|w| {
        let (etx, mut erx) = mpsc::channel::<MqttError>(4);
        let (ftx, frx) = mpsc::channel::<Packet>(4);
        let mut frx = Some(frx);
        let filtered = w.pick(2) == 1;
        let mut c = up(w, Arc::new(move |b: ClientBuilder| {
            let b = b.with_client_id("cli").with_error_handler(etx.clone());
            if filtered { b.with_filtered_consumer(PacketType::Publish, ftx.clone()) } else { b }
        }), vec![]);
        if w.dead {
            return;
        }
        match w.pick(3) {
            0 => {
                if filtered {
                    frx = None;
                } else {
                    c.cons = None;
                }
                settle(w);
                c.peer.as_ref().unwrap().send(&publish("t", 1, 1, b"x"));
                settle(w);
                if c.wire().iter().any(|p| matches!(p, P::Ack { .. })) {
                    w.fail("gone/acknowledged", "the consumer is gone and a message is acknowledged");
                }
                if c.over() != Some(false) || c.connected() == Some(true) {
                    w.fail("gone/running", format!("the consumer is gone, a message has arrived and the client is {}", c.why()));
                } else if erx.try_recv().is_err() {
                    w.fail("loss/handler", format!("the consumer is gone: the error handler is not given the error {}", c.why()));
                } else if c.take_state().is_none() {
                    w.fail("loss/state", "the consumer is gone: no session state is handed back");
                }
            }
            1 => {
                c.push_packet(app_publish(1, "last", None));
                c.prod = None;
                c.sh.lock().unwrap().client = None;
                settle(w);
                let v = c.wire();
                if v.len() != 1 || c.over() != Some(false) {
                    w.fail("gone/running", format!("client and producers are dropped; sent {}, {}", shows(&v), c.why()));
                }
            }
            _ => {
                let h = c.sh.lock().unwrap().abort.take();
                if let Some(h) = h {
                    h.abort();
                }
                settle(w);
                if !c.peer.as_ref().is_some_and(|p| p.closed() || p.gone()) {
                    w.fail("gone/open", "the task is aborted and the connection is open");
                }
            }
        }
        trouble(w, &c);
    });
}

// ------------------------------------------------------------------ L10

pub fn l10(ctx: &Ctx) {
    ctx.rule("every combination of the listed values of each setting; every combination of what the server may override; sizes around the announced maximum");
    let deep = ctx.thorough;
    #[derive(Clone)]
    struct S {
        id: &'static str,
        ka: u64,
        expiry: u64,
        cred: Option<(&'static str, &'static str)>,
        will: Option<Will>,
        rm: Option<u16>,
        mp: Option<usize>,
        clean: bool,
    }
    let ws = wills();
    let draw = |w: &mut World, wide: bool| S {
        id: ["cli", "", "a-much-longer-identifier/with+signs#\u{e9}"][w.pick(3)],
        ka: [60_000, 30_000, 30_400, 65_535_000, 70_000_000, u64::MAX / 4][w.pick(if wide { 6 } else { 3 })],
        expiry: [600, 0, 1, u32::MAX as u64, u32::MAX as u64 + 5][w.pick(if wide { 5 } else { 3 })],
        cred: [None, Some(("u", "p")), Some(("\u{fc}ser", "")), Some(("", "p"))][w.pick(if wide && deep { 4 } else { 3 })],
        will: ws[w.pick(ws.len())].clone(),
        rm: [None, Some(1), Some(300), Some(65_535), Some(0)][w.pick(if wide { 5 } else { 4 })],
        mp: [None, Some(100), Some(1 << 20), Some(5_000_000_000), Some(0)][w.pick(if wide { 5 } else { 2 })],
        clean: w.pick(2) == 0,
    };
    fn setup(s: S, first: bool) -> How {
        Arc::new(move |mut b: ClientBuilder| {
            if first {
                b = b.with_client_id(s.id).with_keep_alive(Duration::from_millis(s.ka)).with_session_expiry(Duration::from_secs(s.expiry));
                if let Some(r) = s.rm {
                    b = b.with_receive_max(r)
                }
                if let Some(m) = s.mp {
                    b = b.with_max_packet_size(m)
                }
            }
            if let Some(x) = &s.will {
                let mut m = vaux_mqtt::WillMessage::new(x.topic.clone(), &x.payload, vaux_mqtt::QoSLevel::try_from(x.qos).unwrap(), x.retain);
                for p in &x.props {
                    m = match (p.id, &p.v) {
                        (0x18, PV::U32(v)) => m.with_delay(*v),
                        (0x03, PV::Str(v)) => m.with_content_type(v.clone()),
                        (0x08, PV::Str(v)) => m.with_response_topic(v.clone()),
                        (0x02, PV::U32(v)) => m.with_message_expiry(*v),
                        (0x09, PV::Bin(v)) => m.with_correlation_data(v.clone()),
                        _ => m.with_payload_format(vaux_mqtt::PayloadFormat::Utf8),
                    };
                }
                b = b.with_will_message(m);
            }
            b
        })
    }
    fn prop(v: &[refmqtt::Prop], id: u8, absent: u64) -> u64 {
        v.iter()
            .find(|p| p.id == id)
            .map(|p| match &p.v {
                PV::U16(x) => *x as u64,
                PV::U32(x) => *x as u64,
                PV::B(x) => *x as u64,
                _ => u64::MAX,
            })
            .unwrap_or(absent)
    }
    // `ids`/`kas`/`exps`: acceptable values
    fn told(w: &mut World, s: &S, got: &[P], id: &str, clean: bool, kas: &[u64], exps: &[u64]) {
        let [P::Connect { clean: c, keep_alive, props, client_id, will, username, password }] = got else {
            w.fail("connect/packets", format!("instead of CONNECT the client sends {}", shows(got)));
            return;
        };
        let mut bad = String::new();
        let mut want = |name: &str, got: String, ok: bool| {
            if !ok {
                bad.push_str(&format!(" {name} {got}"))
            }
        };
        want("clean start", c.to_string(), *c == clean);
        want("identifier", client_id.clone(), client_id == id);
        want("keep-alive", keep_alive.to_string(), kas.contains(&(*keep_alive as u64)));
        let e = prop(props, 0x11, 0);
        want("session expiry", e.to_string(), exps.contains(&e));
        let r = prop(props, 0x21, 65_535);
        want("receive maximum", r.to_string(), r == s.rm.unwrap_or(65_535).max(1) as u64);
        let m = prop(props, 0x27, u32::MAX as u64);
        want("maximum packet size", m.to_string(), m == s.mp.unwrap_or(65_536).clamp(1, u32::MAX as usize) as u64);
        want("user name", format!("{username:?}"), username.as_deref() == s.cred.map(|c| c.0));
        want("password", format!("{password:?}"), password.as_deref() == s.cred.map(|c| c.1.as_bytes()));
        let canon = |x: &Option<Will>| {
            let p = P::Connect { clean: true, keep_alive: 0, props: vec![], client_id: "".into(), will: x.clone(), username: None, password: None }.canon();
            format!("{p:?}")
        };
        want("will", format!("{will:?}"), canon(will) == canon(&s.will));
        for p in props {
            want("property", format!("{p:?}"), [0x11, 0x21, 0x27].contains(&p.id));
        }
        if !bad.is_empty() {
            w.fail("connect/announced", format!("CONNECT announces{bad}, not what was configured"));
        }
    }
    let begin = |w: &mut World, c: &mut Cli, s: &S, first: bool, state: Option<vaux_client::session::SessionState>, clean: bool| {
        let mut conn = vaux_client::MqttConnection::new().with_host("127.0.0.1").with_port(PORT);
        if let Some((u, p)) = s.cred {
            conn = conn.with_credentials(u, p);
        }
        c.launch_with(w, conn, setup(s.clone(), first), state, clean, None);
        settle(w);
        if !w.dead && !c.accept() {
            w.fail("start/connect", format!("the client does not connect: {}", c.why()));
        }
    };
    let secs = |ms: u64| ms.div_ceil(1000).min(65_535);
    let exp = |s: &S| s.expiry.min(u32::MAX as u64);
    explore(ctx, "announced", Cfg::NONE, &|w| {
        let s = draw(w, true);
        if !deep && s.clean && s.cred.is_some() && s.rm == Some(300) {
            return;
        }
        let mut c = Cli::new();
        begin(w, &mut c, &s, true, None, s.clean);
        if w.dead {
            return;
        }
        let v = c.wire();
        told(w, &s, &v, s.id, s.clean, &[secs(s.ka)], &[exp(&s)]);
        trouble(w, &c);
        w.note(format!("{v:?}"));
    });
    explore(ctx, "overridden", Cfg::NONE, &|w| {
        let s = S { will: ws[w.pick(2)].clone(), cred: [None, Some(("u", "p"))][w.pick(2)], id: ["cli", ""][w.pick(2)], ka: 30_400, expiry: 600, rm: [None, Some(2)][w.pick(2)], mp: [None, Some(300)][w.pick(2)], clean: true };
        let ka = [None, Some(5u16), Some(0), Some(90), Some(65_535)][w.pick(5)];
        let ex = [None, Some(0u32), Some(7), Some(u32::MAX)][w.pick(4)];
        let assigned = [None, Some("srv-1")][w.pick(2)];
        let mut c = Cli::new();
        begin(w, &mut c, &s, true, None, true);
        if w.dead {
            return;
        }
        c.wire();
        let mut props = vec![];
        if let Some(k) = ka {
            props.push(pr(0x13, PV::U16(k)));
        }
        if let Some(e) = ex {
            props.push(pr(0x11, PV::U32(e)));
        }
        if let Some(a) = assigned {
            props.push(pr(0x12, PV::Str(a.into())));
        }
        c.peer.as_ref().unwrap().send(&connack(false, props));
        settle(w);
        trouble(w, &c);
        if w.dead {
            return;
        }
        if s.id.is_empty() && assigned.is_none() {
            if c.over() != Some(false) || c.connected() == Some(true) {
                w.fail("assigned/missing", format!("no identifier is assigned and the client is {}", c.why()));
            }
            return;
        }
        if c.connected() != Some(true) {
            w.fail("start/refused", format!("the client is {}", c.why()));
            return;
        }
        let (k, e) = {
            let g = c.sh.lock().unwrap();
            let cl = g.client.as_ref().unwrap();
            (now(cl.keep_alive()).unwrap(), now(cl.session_expiry()).unwrap())
        };
        let force = ka.map(|k| k as u64 * 1000);
        let kok = match force {
            Some(f) => k.as_millis() as u64 == f,
            None => (30_400..=31_000).contains(&(k.as_millis() as u64)),
        };
        if !kok || e.as_secs() != ex.unwrap_or(600) as u64 {
            w.fail("reported/reported", format!("server said keep-alive {ka:?} and expiry {ex:?}; reported {k:?} and {e:?}"));
            return;
        }
        // and after a restart
        c.peer.as_mut().unwrap().close();
        settle(w);
        let Some(st) = c.take_state() else {
            w.fail("loss/state", "no session state is handed back");
            return;
        };
        begin(w, &mut c, &s, false, Some(st), false);
        if w.dead {
            return;
        }
        let v = c.wire();
        let id = if s.id.is_empty() { assigned.unwrap() } else { s.id };
        let kas: Vec<u64> = ka.map(|k| k as u64).into_iter().chain([31]).collect();
        let exps: Vec<u64> = ex.map(|k| k as u64).into_iter().chain([600]).collect();
        told(w, &s, &v, id, false, &kas, &exps);
        w.note(format!("{v:?}"));
    });
    // a size the client has announced, and one byte more
    explore(ctx, "maximum packet size", Cfg::NONE, &|w| {
        let max = [None, Some(30usize), Some(100), Some(127), Some(128), Some(4_096), Some(5_000), Some(100_000)][w.pick(8)];
        let over = [-1i64, 0, 1, 2, 500][w.pick(5)];
        let n = (max.unwrap_or(65_536) as i64 + over) as usize;
        let how: How = Arc::new(move |b: ClientBuilder| {
            let b = b.with_client_id("cli");
            if let Some(m) = max { b.with_max_packet_size(m) } else { b }
        });
        let mut c = up(w, how, vec![]);
        if w.dead {
            return;
        }
        // PUBLISH of exactly n bytes: header 1, length 1-3, topic 3, properties 1
        let Some(body) = (1..=4).map(|l| n as i64 - 5 - l).find(|b| *b >= 0 && {
            refmqtt::encode(&publish("t", 0, 0, &vec![b'x'; *b as usize]), refmqtt::Form::Long).len() == n
        }) else {
            return;
        };
        let p = publish("t", 0, 0, &vec![b'x'; body as usize]);
        c.peer.as_ref().unwrap().send(&p);
        settle(w);
        let got = c.app();
        trouble(w, &c);
        w.note(format!("maximum {max:?}, {n} bytes: {} handed over, {}", got.len(), c.why()));
        if over <= 0 {
            if got != [p] || c.over().is_some() {
                w.fail("size/refused", format!("maximum {max:?}: a packet of {n} bytes is not handed over, the client is {}", c.why()));
            }
        } else if !got.is_empty() || c.over() != Some(false) || c.connected() == Some(true) {
            w.fail("size/accepted", format!("maximum {max:?}: after a packet of {n} bytes the client is {}", c.why()));
        }
    });
}
