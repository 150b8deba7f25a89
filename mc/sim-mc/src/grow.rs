//! Does the code under test keep memory although nothing is left to remember? Every allocation made
//! while a task is polled (or inside [`counted`]) is counted until it is freed.
use crate::explore::*;
use crate::net::*;
use mcbase::Ctx;
use refmqtt::P;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// Allocator with a 16-byte header naming the execution that allocated.
pub struct Counting;
const H: usize = 16;
thread_local! {
    static TOKEN: Cell<u64> = const { Cell::new(0) };
    static FORCE: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
static NEXT: AtomicU64 = AtomicU64::new(1);

fn tag() -> u64 {
    let t = TOKEN.get();
    if t != 0 && (FORCE.get() || tokio::sim::in_task() != 0) { t } else { 0 }
}
fn mine(t: u64) -> bool {
    t != 0 && t == TOKEN.get()
}
/// the block behind one of layout `l`, and where in it that one begins
fn outer(l: Layout) -> (Layout, usize) {
    let at = l.align().max(H);
    (unsafe { Layout::from_size_align_unchecked(l.size() + at, at) }, at)
}
/// The name is kept in the 16 bytes in front.
unsafe fn named(p: *mut u8, at: usize, size: usize) -> *mut u8 {
    unsafe {
        if p.is_null() {
            return p;
        }
        let p = p.add(at);
        let t = tag();
        (p.sub(H) as *mut u64).write(t);
        if t != 0 {
            LIVE.set(LIVE.get() + size as i64)
        }
        p
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (o, at) = outer(l);
        mcbase::mem::change(l.size() as i64);
        unsafe { named(System.alloc(o), at, l.size()) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let (o, at) = outer(l);
        mcbase::mem::change(l.size() as i64);
        unsafe { named(System.alloc_zeroed(o), at, l.size()) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let (o, at) = outer(l);
        mcbase::mem::change(-(l.size() as i64));
        unsafe {
            if mine((p.sub(H) as *mut u64).read()) {
                LIVE.set(LIVE.get() - l.size() as i64)
            }
            System.dealloc(p.sub(at), o)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let (o, at) = outer(l);
        mcbase::mem::change(n as i64 - l.size() as i64);
        unsafe {
            let t = (p.sub(H) as *mut u64).read();
            let q = System.realloc(p.sub(at), o, n + at);
            if q.is_null() {
                return q;
            }
            if mine(t) {
                LIVE.set(LIVE.get() + n as i64 - l.size() as i64)
            }
            q.add(at)
        }
    }
}
/// From here on this thread's executions are counted.
fn start() {
    TOKEN.set(NEXT.fetch_add(1, Relaxed));
    LIVE.set(0);
}
fn live() -> i64 {
    LIVE.get()
}
/// Allocations of `f` count as the code's own.
pub fn counted<R>(f: impl FnOnce() -> R) -> R {
    let old = FORCE.replace(true);
    let r = f();
    FORCE.set(old);
    r
}

/// `cycle` is repeated; the bytes held at the end of a cycle must stop increasing.
fn settles(w: &mut World, cycle: &mut dyn FnMut(&mut World), first: u32, last: u32) -> Option<String> {
    let (mut done, mut at) = (0, first);
    let mut seen: Vec<(u32, i64)> = vec![];
    loop {
        while done < at {
            cycle(w);
            done += 1;
            if w.dead || w.spun {
                return None;
            }
        }
        tokio::sim::net::forget_dialled();
        seen.push((done, live()));
        let k = seen.len();
        if k >= 2 && seen[k - 1].1 <= seen[k - 2].1 {
            return None;
        }
        if at >= last {
            return Some(seen.iter().map(|(n, b)| format!("{b} bytes after {n}")).collect::<Vec<_>>().join(", "));
        }
        at *= 2;
    }
}

// ------------------------------------------------------------------ B19

#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    Con(usize, bool),
    Will(usize, u32),
    /// a connection that is refused after its CONNECT
    Refused,
    /// a connection over which nothing, or half a CONNECT, is sent
    Silent(bool),
    NotMqtt,
    Sub(usize, &'static [(&'static str, u8)]),
    Unsub(usize, &'static [&'static str]),
    Pub(usize, u8),
    /// left unacknowledged until the cycle ends
    Lazy(usize, u8),
    DupPub(usize),
    Unknown(usize),
    /// names never used before
    NewTopic(usize, u8),
    UnsubNew(usize),
    /// a client never seen before, where no more sessions are allowed
    Stranger,
    Ping(usize),
    Bye(usize, u8),
    Gone(usize),
    Reset(usize),
    Garbage(usize),
    Wait(u64),
}
const IDS: [&str; 2] = ["a", "b"];
struct Two {
    net: Net,
    p: [Option<Peer>; 2],
    pid: u16,
    n: u32,
    lazy: bool,
}
impl Two {
    fn settle(&mut self, w: &mut World) {
        for _ in 0..6 {
            w.run();
            if self.lazy || !self.answer() {
                break;
            }
        }
    }
    /// Every message is acknowledged.
    fn answer(&mut self) -> bool {
        let mut any = false;
        for s in self.p.iter_mut() {
            let Some(p) = s else { continue };
            for q in p.recv() {
                match q {
                    P::Publish { qos: 1, pid: Some(i), .. } => p.send(&ack(4, i)),
                    P::Publish { qos: 2, pid: Some(i), .. } => p.send(&ack(5, i)),
                    P::Ack { kind: 5, pid, .. } => p.send(&ack(6, pid)),
                    P::Ack { kind: 6, pid, .. } => p.send(&ack(7, pid)),
                    _ => continue,
                }
                any = true
            }
            if p.closed() {
                *s = None
            }
        }
        any
    }
    fn odd(&mut self, w: &mut World, b: &[u8]) {
        let i = self.net.dial("odd").unwrap();
        if !b.is_empty() {
            self.net.peers[i].send_raw(b)
        }
        self.settle(w);
        self.net.peers.clear();
        self.settle(w);
    }
    fn con(&mut self, w: &mut World, s: usize, p: P) {
        let i = self.net.dial(IDS[s]).unwrap();
        let new = self.net.peers.remove(i);
        new.send(&p);
        // an old connection of this client sees itself replaced
        let old = self.p[s].replace(new);
        w.run();
        drop(old);
    }
    fn next(&mut self) -> u16 {
        self.pid = self.pid % 60_000 + 1;
        self.pid
    }
    fn step(&mut self, w: &mut World, a: A) {
        let pid = self.next();
        self.n += 1;
        let to = |t: &Two, s: usize, p: P| {
            if let Some(c) = &t.p[s] {
                c.send(&p)
            }
        };
        match a {
            A::Con(s, clean) => self.con(w, s, connect(IDS[s], clean)),
            A::Will(s, d) => self.con(w, s, with_will(connect(IDS[s], false), "t", b"will", 1, d)),
            A::Refused => {
                // another protocol version
                let mut b = refmqtt::encode(&connect("old", false), refmqtt::Form::Long);
                let at = b.windows(4).position(|x| x == b"MQTT").unwrap() + 4;
                b[at] = 4;
                self.odd(w, &b)
            }
            A::Silent(half) => {
                let b = refmqtt::encode(&connect("half", true), refmqtt::Form::Long);
                self.odd(w, if half { &b[..b.len() / 2] } else { &[] })
            }
            A::NotMqtt => self.odd(w, b"GET / HTTP/1.1\r\n\r\n"),
            A::Sub(s, f) => to(self, s, subscribe(pid, f)),
            A::Unsub(s, f) => to(self, s, unsubscribe(pid, f)),
            A::Pub(s, q) => to(self, s, publish("t", q, pid, b"hello")),
            A::Lazy(s, q) => {
                self.lazy = true;
                to(self, s, publish("t", q, pid, b"hello"));
            }
            A::DupPub(s) => {
                let P::Publish { qos, retain, topic, pid, props, payload, .. } = publish("t", 1, pid, b"again") else { unreachable!() };
                let p = P::Publish { dup: true, qos, retain, topic, pid, props, payload };
                to(self, s, p.clone());
                to(self, s, p)
            }
            A::NewTopic(s, q) => to(self, s, publish(&format!("n/{:05}", self.n), q, pid, b"new")),
            A::UnsubNew(s) => to(self, s, unsubscribe(pid, &[&format!("n/{:05}", self.n)])),
            // (let in, its session would stay: sessions do not expire in this broker)
            A::Stranger if self.p.iter().all(|p| p.is_none()) => {}
            A::Stranger => {
                let b = refmqtt::encode(&connect(&format!("stranger{:05}", self.n), false), refmqtt::Form::Long);
                self.odd(w, &b)
            }
            A::Unknown(s) => to(self, s, ack(4, 65_000)),
            A::Ping(s) => to(self, s, P::PingReq),
            A::Bye(s, r) => {
                to(self, s, disconnect(r));
                self.settle(w);
                self.p[s] = None
            }
            A::Gone(s) => self.p[s] = None,
            A::Reset(s) => {
                if let Some(c) = self.p[s].take() {
                    c.reset()
                }
            }
            A::Garbage(s) => {
                if let Some(c) = &self.p[s] {
                    c.send_raw(&[0xff, 0xff, 0xff, 0xff, 0xff])
                }
            }
            A::Wait(ms) => w.advance(ms),
        }
        self.settle(w);
    }
}

pub fn b19(ctx: &Ctx) {
    ctx.rule("every word of the stated length over connects, reconnects, takeovers, refused and odd connections, subscriptions, publications, acknowledgements, every way to leave and waiting, repeated as a cycle by two clients who acknowledge everything; bytes held by the broker's tasks are counted by the allocator after 12, 24, 48 ... cycles and must stop increasing");
    let mut al: Vec<A> = vec![
        A::Con(0, true),
        A::Con(0, false),
        A::Will(0, 0),
        A::Will(0, 2),
        // always called off: the client comes back
        A::Will(0, 1_000_000),
        A::Con(1, false),
        A::Refused,
        A::Silent(false),
        A::Silent(true),
        A::NotMqtt,
        A::Sub(0, &[("t", 1)]),
        A::Sub(0, &[("t", 0), ("+", 1), ("n/#", 1)]),
        A::Sub(1, &[("t", 5)]),
        A::Unsub(0, &["t"]),
        A::Unsub(0, &["+", "nothing"]),
        A::Pub(0, 0),
        A::Pub(0, 1),
        A::Pub(1, 1),
        A::Lazy(1, 1),
        A::DupPub(1),
        A::Unknown(0),
        A::Ping(0),
        A::Bye(0, 0),
        A::Bye(0, 4),
        A::Gone(0),
        A::Reset(0),
        A::Garbage(0),
        A::Wait(500),
        A::Wait(100_000),
        A::NewTopic(1, 0),
        A::NewTopic(1, 1),
        A::UnsubNew(0),
    ];
    let depth = if ctx.thorough { 4 } else { 3 };
    ctx.count("operations", al.len() as u64);
    for limit in [None, Some(1)] {
        if limit.is_some() {
            al.push(A::Stranger)
        }
        let name = if limit.is_none() { "cycles" } else { "cycles, one session allowed" };
        explore(ctx, name, Cfg::NONE, &|w| {
            let mut cfg = config();
            cfg.max_active_sessions = limit;
            start();
            let mut t = Two { net: Net::start(w, cfg), p: [None, None], pid: 0, n: 0, lazy: false };
            t.step(w, A::Con(0, true));
            t.step(w, A::Con(1, true));
            t.step(w, A::Sub(0, &[("t", 1)]));
            let mut word = vec![];
            for _ in 0..depth - limit.is_some() as usize {
                word.push(al[w.pick(al.len())]);
            }
            if word.contains(&A::Will(0, 1_000_000)) && word.contains(&A::Con(0, true)) {
                // that one would be published, but later
                return;
            }
            w.note(format!("{word:?}"));
            let grown = settles(
                w,
                &mut |w| {
                    for a in &word {
                        t.step(w, *a)
                    }
                    t.lazy = false;
                    t.settle(w);
                    // what has been put off falls due
                    for c in t.p.iter().flatten() {
                        c.send(&P::PingReq)
                    }
                    w.advance(3000);
                    t.settle(w);
                },
                12,
                192,
            );
            if let Some(g) = grown {
                w.fail("grow/broker", format!("the broker holds ever more memory when {word:?} is repeated: {g} repetitions"))
            }
        });
    }
}

// ------------------------------------------------------------------ L11

use crate::client::{Cli, How, app_publish, connack, now};
use std::sync::Arc;
use vaux_mqtt::Packet;

#[derive(Clone, Copy, Debug, PartialEq)]
enum C {
    Subscribe,
    Unsubscribe,
    Ping,
    Pub(u8),
    PubId(u8, u16),
    /// nothing is answered until the cycle ends
    Hold,
    /// a PUBREC that refuses
    Refuse,
    In(u8, bool),
    /// sent twice before anything is answered
    Twice(u8),
    /// an acknowledgement for nothing
    Stray(u8),
    Wait(u64),
    /// connection lost, restarted with the state handed back
    Lost(bool),
    Stop(bool),
    /// a server that answers with a refusal, then one that accepts
    Refused,
}
struct One {
    c: Cli,
    how: How,
    auto: bool,
    hold: bool,
    refuse: bool,
    sp: bool,
    pid: u16,
    aid: u16,
    /// what the server has sent and not seen the end of: quality of service, PUBREC received
    open: std::collections::BTreeMap<u16, (u8, bool)>,
    /// releases the application owes
    rel: std::collections::BTreeSet<u16>,
    errs: tokio::sync::mpsc::Receiver<vaux_client::MqttError>,
}
impl One {
    fn answer(&mut self) -> bool {
        let mut any = false;
        if self.c.peer.is_none() && self.c.accept() {
            any = true
        }
        for p in self.c.wire() {
            any = true;
            let Some(s) = &self.c.peer else { continue };
            match p {
                P::Connect { .. } => {
                    s.send(&connack(self.sp, vec![]));
                    if !self.sp {
                        self.open.clear();
                        self.rel.clear();
                    }
                    for (i, (q, rec)) in &self.open {
                        if *rec {
                            s.send(&ack(6, *i))
                        } else {
                            s.send(&P::Publish { dup: true, qos: *q, retain: false, topic: "t".into(), pid: Some(*i), props: vec![], payload: b"in".to_vec() })
                        }
                    }
                    if !self.auto {
                        for i in &self.rel {
                            self.c.push(&ack(6, *i));
                        }
                    }
                }
                P::Ack { kind: 4, pid, .. } | P::Ack { kind: 7, pid, .. } => {
                    self.open.remove(&pid);
                }
                P::PingReq => s.send(&P::PingResp),
                P::Subscribe { pid, filters, .. } => s.send(&P::SubAck { pid, props: vec![], reasons: filters.iter().map(|f| f.1 & 3).collect() }),
                P::Unsubscribe { pid, filters, .. } => s.send(&P::UnsubAck { pid, props: vec![], reasons: filters.iter().map(|_| 0).collect() }),
                P::Publish { qos: 1, pid: Some(i), .. } => s.send(&ack(4, i)),
                P::Publish { qos: 2, pid: Some(i), .. } => {
                    s.send(&P::Ack { kind: 5, pid: i, reason: if self.refuse { 0x97 } else { 0 }, props: vec![] })
                }
                P::Ack { kind: 5, pid, reason, .. } if reason < 0x80 => {
                    if let Some(x) = self.open.get_mut(&pid) {
                        x.1 = true
                    }
                    s.send(&ack(6, pid))
                }
                P::Ack { kind: 5, pid, .. } => {
                    self.open.remove(&pid);
                }
                P::Ack { kind: 6, pid, .. } => s.send(&ack(7, pid)),
                _ => {}
            }
        }
        any
    }
    fn settle(&mut self, w: &mut World) {
        for _ in 0..12 {
            w.run();
            let mut any = !self.hold && self.answer();
            while let Some(Some(p)) = self.c.cons.as_mut().and_then(|c| now(c.recv())) {
                any = true;
                if self.auto {
                    continue;
                }
                let out = match crate::client::seen(&p) {
                    P::Publish { qos: 1, pid: Some(i), .. } => ack(4, i),
                    P::Publish { qos: 2, pid: Some(i), .. } => ack(5, i),
                    P::Ack { kind: 5, pid, reason, .. } if reason < 0x80 => {
                        self.rel.insert(pid);
                        ack(6, pid)
                    }
                    P::Ack { kind: 7, pid, .. } => {
                        self.rel.remove(&pid);
                        continue;
                    }
                    P::Ack { kind: 6, pid, .. } => ack(7, pid),
                    _ => continue,
                };
                self.c.push(&out);
            }
            while self.errs.try_recv().is_ok() {
                any = true
            }
            if !any {
                break;
            }
        }
    }
    fn begin(&mut self, w: &mut World, state: Option<vaux_client::session::SessionState>) {
        let how = self.how.clone();
        self.c.launch(w, how, state, false, None);
        let h = std::mem::replace(&mut self.hold, false);
        self.settle(w);
        self.hold = h;
        if !w.dead && self.c.connected() != Some(true) {
            w.fail("harness-panic", format!("the client does not connect: {}", self.c.why()))
        }
    }
    fn again(&mut self, w: &mut World, sp: bool) {
        self.settle(w);
        if self.c.over().is_none() {
            w.fail("loss/running", "the client goes on although its connection has ended");
            return;
        }
        let st = self.c.take_state();
        self.sp = sp;
        self.begin(w, st);
    }
    fn step(&mut self, w: &mut World, a: C) {
        let pid = self.pid % 60_000 + 1;
        self.pid = pid;
        let to = |o: &One, p: P| {
            if let Some(c) = &o.c.peer {
                c.send(&p)
            }
        };
        let inc = |q: u8, dup: bool| P::Publish { dup, qos: q, retain: false, topic: format!("t/{pid:05}"), pid: (q > 0).then_some(pid), props: vec![], payload: b"in".to_vec() };
        match a {
            C::Subscribe => {
                self.c.push(&subscribe(pid, &[("t", 1), ("u/#", 2)]));
            }
            C::Unsubscribe => {
                self.c.push(&unsubscribe(pid, &["t"]));
            }
            C::Ping => {
                self.c.push(&P::PingReq);
            }
            C::Pub(q) => {
                self.aid = self.aid % 60_000 + 1;
                let id = (!self.auto && q > 0).then_some(self.aid);
                self.c.push_packet(app_publish(q, "out", id));
            }
            C::PubId(q, id) => {
                self.c.push_packet(app_publish(q, "out", Some(id)));
            }
            C::Hold => self.hold = true,
            C::Refuse => self.refuse = true,
            C::In(q, dup) => {
                if q > 0 {
                    self.open.insert(pid, (q, false));
                }
                to(self, inc(q, dup))
            }
            C::Twice(q) => {
                self.open.insert(pid, (q, false));
                to(self, inc(q, false));
                to(self, inc(q, true));
            }
            C::Stray(k) => to(self, ack(k, 61_000)),
            C::Wait(ms) => w.advance(ms),
            C::Lost(sp) => {
                if let Some(p) = &mut self.c.peer {
                    p.close()
                }
                self.again(w, sp)
            }
            C::Stop(sp) => {
                self.c.push_packet(Packet::Disconnect(Default::default()));
                self.again(w, sp)
            }
            C::Refused => {
                if let Some(p) = &mut self.c.peer {
                    p.close()
                }
                self.settle(w);
                let st = self.c.take_state();
                let how = self.how.clone();
                self.c.launch(w, how, st, false, None);
                w.run();
                self.c.accept();
                w.run();
                self.c.wire();
                to(self, P::ConnAck { sp: false, reason: 0x88, props: vec![] });
                self.again(w, true)
            }
        }
        if !w.dead {
            self.settle(w);
        }
    }
}

pub fn l11(ctx: &Ctx) {
    ctx.rule("every word of the stated length over what application and server can do, losses of the connection and restarts from the state handed back included, repeated as a cycle in which everything is acknowledged in the end; bytes held by the client's tasks are counted by the allocator after 12, 24, 48 ... cycles and must stop increasing");
    let mut al: Vec<C> = vec![C::Subscribe, C::Unsubscribe, C::Ping, C::Pub(0), C::Pub(1), C::Pub(2), C::PubId(1, 7), C::PubId(2, 7), C::Hold, C::Refuse];
    al.extend([C::In(0, false), C::In(1, false), C::In(2, false), C::In(2, true), C::Twice(1), C::Twice(2), C::Stray(4), C::Stray(5), C::Stray(6), C::Stray(7)]);
    al.extend([C::Wait(500), C::Lost(true), C::Lost(false), C::Stop(true), C::Refused]);
    let depth = if ctx.thorough { 4 } else { 3 };
    ctx.count("operations", al.len() as u64);
    for auto in [true, false] {
        explore(ctx, if auto { "cycles" } else { "cycles, manual" }, Cfg::NONE, &|w| {
            start();
            let (etx, errs) = tokio::sync::mpsc::channel(1000);
            let how: How = Arc::new(move |b| {
                b.with_auto_ack(auto).with_auto_packet_id(auto).with_client_id("c").with_session_expiry(std::time::Duration::from_secs(1000)).with_error_handler(etx.clone())
            });
            let mut o = One { c: Cli::new(), how, auto, hold: false, refuse: false, sp: false, pid: 0, aid: 0, open: Default::default(), rel: Default::default(), errs };
            o.begin(w, None);
            let mut word = vec![];
            for _ in 0..depth - !auto as usize {
                word.push(al[w.pick(al.len())]);
            }
            w.note(format!("{word:?}"));
            let grown = settles(
                w,
                &mut |w| {
                    for a in &word {
                        if w.dead {
                            return;
                        }
                        o.step(w, *a)
                    }
                    o.hold = false;
                    o.refuse = false;
                    o.settle(w);
                },
                12,
                192,
            );
            if let Some(g) = grown {
                w.fail("grow/client", format!("the client holds ever more memory when {word:?} is repeated: {g} repetitions"))
            }
        });
    }
}
