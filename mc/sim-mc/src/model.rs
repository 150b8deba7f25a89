//! Reference model of the broker for histories in which every request is answered before the next
//! one is made, and the comparison of the real broker with it.
use crate::explore::World;
use crate::net::*;
use refmqtt::{self as rm, P, PV, Prop};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Will {
    pub topic: &'static str,
    pub qos: u8,
    pub delay: u32,
    pub tag: String,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Which {
    First,
    Last,
    All,
    Unknown,
}
#[derive(Clone, Debug)]
pub enum Op {
    Connect { slot: usize, id: &'static str, clean: bool, will: Option<Will>, ka: u16 },
    Sub { slot: usize, f: Vec<(&'static str, u8)> },
    Unsub { slot: usize, f: Vec<&'static str> },
    Pub { slot: usize, topic: &'static str, qos: u8, dup: bool },
    Ack { slot: usize, which: Which },
    Ping { slot: usize },
    Bye { slot: usize, reason: u8 },
    Drop { slot: usize },
    Reset { slot: usize },
    /// bytes that are not MQTT
    Garbage { slot: usize },
    Tick { ms: u64 },
}
impl Op {
    pub fn slot(&self) -> Option<usize> {
        match self {
            Op::Connect { slot, .. }
            | Op::Sub { slot, .. }
            | Op::Unsub { slot, .. }
            | Op::Pub { slot, .. }
            | Op::Ack { slot, .. }
            | Op::Ping { slot }
            | Op::Bye { slot, .. }
            | Op::Drop { slot }
            | Op::Reset { slot }
            | Op::Garbage { slot } => Some(*slot),
            Op::Tick { .. } => None,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Pend {
    pub pid: u16,
    pub topic: String,
    pub payload: Vec<u8>,
}
#[derive(Clone, Debug, Default)]
pub struct MSess {
    pub subs: Vec<(String, u8)>,
    pub pend: Vec<Pend>,
    pub will: Option<Will>,
    /// peer
    pub conn: Option<usize>,
    /// when the client's last packet arrived, and how long it may be silent
    pub heard: u64,
    pub patience: u64,
}
#[derive(Clone, Debug)]
pub struct Delayed {
    due: u64,
    id: String,
    will: Will,
    /// may have been published already, unseen
    maybe: bool,
    /// its session has been ended by a clean start: no later connection cancels it
    orphan: bool,
}

/// What one step must bring to one peer.
#[derive(Default, Debug)]
struct Exp {
    ctrl: Vec<Ctl>,
    /// exact redeliveries
    again: Vec<Pend>,
    /// fresh messages: (topic, payload, qos of the message, matching subscriptions' options, required)
    fresh: Vec<(String, Vec<u8>, u8, Vec<u8>, bool)>,
    closed: Option<bool>,
}
#[derive(Debug)]
enum Ctl {
    ConnAck { sp: bool },
    Refused,
    Exactly(P),
    Bye(u8),
}

pub struct Sys {
    pub net: Net,
    pub sess: BTreeMap<String, MSess>,
    pub delayed: Vec<Delayed>,
    /// current peer of every client slot
    pub slots: Vec<Option<usize>>,
    pub limit: Option<u32>,
    /// least and greatest keep-alive
    ka: (u16, u16),
    pub n: u32,
    pid: u16,
    /// properties put on every published message
    pub props: Vec<Prop>,
    retired: Vec<bool>,
    /// the identifier every peer connected with
    owner: BTreeMap<usize, String>,
}

fn canon(p: &[Prop]) -> P {
    P::Disconnect { reason: 0, props: p.to_vec() }.canon()
}
pub fn matches(f: &str, t: &str) -> bool {
    rm::topic_matches(f, t)
}

impl Sys {
    pub fn new(w: &mut World, cfg: vaux_broker::Config, slots: usize) -> Sys {
        let limit = cfg.max_active_sessions;
        let ka = (cfg.default_keep_alive.as_secs() as u16, cfg.max_keep_alive.as_secs() as u16);
        Sys {
            net: Net::start(w, cfg),
            sess: BTreeMap::new(),
            delayed: vec![],
            slots: vec![None; slots],
            limit,
            ka,
            n: 0,
            pid: 0,
            props: vec![],
            retired: vec![],
            owner: BTreeMap::new(),
        }
    }
    pub fn live(&self, slot: usize) -> bool {
        self.id_of(slot).is_some()
    }
    pub fn id_of(&self, slot: usize) -> Option<String> {
        let p = self.slots[slot]?;
        self.sess.iter().find(|(_, s)| s.conn == Some(p)).map(|(i, _)| i.clone())
    }
    pub fn enabled(&self, op: &Op) -> bool {
        match op {
            Op::Tick { .. } => true,
            Op::Connect { slot, .. } => !self.live(*slot),
            Op::Ack { slot, which } => match self.id_of(*slot) {
                None => false,
                Some(id) => {
                    let n = self.sess[&id].pend.len();
                    match which {
                        Which::First | Which::All => n > 0,
                        Which::Last => n > 1,
                        Which::Unknown => true,
                    }
                }
            },
            o => self.live(o.slot().unwrap()),
        }
    }

    fn route(&self, exp: &mut BTreeMap<usize, Exp>, from: &str, topic: &str, payload: &[u8], qos: u8, required: bool) {
        for (id, s) in &self.sess {
            let Some(c) = s.conn else { continue };
            let m: Vec<u8> = s
                .subs
                .iter()
                .filter(|(f, o)| matches(f, topic) && !(o & 4 != 0 && id == from))
                .map(|x| x.1)
                .collect();
            if !m.is_empty() {
                exp.entry(c).or_default().fresh.push((topic.into(), payload.to_vec(), qos, m, required))
            }
        }
    }
    /// The connection of `id` ends without goodbye.
    fn lost(&mut self, exp: &mut BTreeMap<usize, Exp>, id: &str, now: u64) {
        let s = self.sess.get_mut(id).unwrap();
        s.conn = None;
        if let Some(wl) = s.will.take() {
            if wl.delay == 0 {
                self.route(exp, "", wl.topic, wl.tag.as_bytes(), wl.qos, true)
            } else {
                self.delayed.push(Delayed { due: now + wl.delay as u64 * 1000, id: id.into(), will: wl, maybe: false, orphan: false })
            }
        }
    }

    /// What time brings: wills that fall due, clients that have been silent for too long.
    fn pass(&mut self, exp: &mut BTreeMap<usize, Exp>, end: u64) {
        loop {
            let w = self.delayed.iter().enumerate().map(|(k, d)| (d.due, k)).min();
            let q = self.sess.iter().filter(|s| s.1.conn.is_some()).map(|(i, s)| (s.heard + s.patience, i.clone())).min();
            match (w, q) {
                (Some((t, k)), q) if t <= end && q.as_ref().is_none_or(|q| t <= q.0) => {
                    let d = self.delayed.remove(k);
                    self.route(exp, "", d.will.topic, d.will.tag.as_bytes(), d.will.qos, !d.maybe);
                }
                (_, Some((t, id))) if t <= end => {
                    exp.entry(self.sess[&id].conn.unwrap()).or_default().closed = Some(true);
                    self.lost(exp, &id, t);
                }
                _ => break,
            }
        }
    }

    /// Performs one operation on the real broker and on the model and compares.
    pub fn step(&mut self, w: &mut World, op: &Op) {
        self.n += 1;
        let tag = format!("m{}", self.n);
        let mut exp: BTreeMap<usize, Exp> = BTreeMap::new();
        let mut settle = 0u64;
        match op {
            Op::Connect { slot, id, clean, will, ka } => {
                let Some(i) = self.net.dial(&format!("{id}{}", self.n)) else {
                    w.fail("accept/refused", "the broker does not accept connections");
                    return;
                };
                self.slots[*slot] = Some(i);
                self.owner.insert(i, id.to_string());
                let mut p = keep_alive(connect(id, *clean), *ka);
                if let Some(wl) = will {
                    let t = tag.clone() + &wl.tag;
                    p = with_will(p, wl.topic, t.as_bytes(), wl.qos, wl.delay);
                }
                // a session outlives its connection
                p = connect_props(p, vec![Prop { id: 0x11, v: PV::U32(600) }]);
                self.net.peers[i].send(&p);
                let active = self.sess.values().filter(|s| s.conn.is_some()).count() as u32;
                let over = self.sess.get(*id).map(|s| s.conn).unwrap_or(None);
                if over.is_none() && self.limit.is_some_and(|l| active >= l) {
                    let e = exp.entry(i).or_default();
                    e.ctrl.push(Ctl::Refused);
                    e.closed = Some(true);
                } else {
                    let mut lost = None;
                    if let Some(old) = over {
                        settle = 1000;
                        let wl = self.sess.get_mut(*id).unwrap().will.take();
                        self.sess.get_mut(*id).unwrap().conn = None;
                        let e = exp.entry(old).or_default();
                        e.ctrl.push(Ctl::Bye(0x8e));
                        e.closed = Some(true);
                        // the session goes on unless the start is clean: only then is a will
                        // with a delay due now
                        lost = wl.filter(|wl| *clean || wl.delay == 0);
                    }
                    let known = self.sess.contains_key(*id);
                    if *clean {
                        // a clean start ends the old session: a will still waiting comes now or
                        // at its time
                        for k in 0..self.delayed.len() {
                            let d = self.delayed[k].clone();
                            if d.id == *id && !d.orphan {
                                self.delayed[k].orphan = true;
                                let n = exp.values().map(|e| e.fresh.len()).sum::<usize>();
                                self.route(&mut exp, "", d.will.topic, d.will.tag.as_bytes(), d.will.qos, false);
                                // with nobody to see it, it may have been published already
                                self.delayed[k].maybe |= n == exp.values().map(|e| e.fresh.len()).sum::<usize>();
                            }
                        }
                        self.sess.insert(id.to_string(), MSess::default());
                    } else {
                        self.delayed.retain(|d| d.orphan || d.id != *id);
                    }
                    let s = self.sess.entry(id.to_string()).or_default();
                    s.conn = Some(i);
                    s.patience = (*ka).max(self.ka.0).min(self.ka.1) as u64 * 1500;
                    s.heard = w.now;
                    s.will = will.clone().map(|x| Will { tag: tag.clone() + &x.tag, ..x });
                    let e = exp.entry(i).or_default();
                    e.ctrl.push(Ctl::ConnAck { sp: known && !*clean });
                    e.again = s.pend.clone();
                    if let Some(wl) = lost {
                        self.route(&mut exp, "", wl.topic, wl.tag.as_bytes(), wl.qos, true);
                    }
                }
            }
            Op::Sub { slot, f } => {
                self.pid += 1;
                let id = self.id_of(*slot).unwrap();
                let i = self.slots[*slot].unwrap();
                self.net.peers[i].send(&subscribe(self.pid, f));
                let s = self.sess.get_mut(&id).unwrap();
                for (x, o) in f {
                    match s.subs.iter_mut().find(|y| y.0 == *x) {
                        Some(y) => y.1 = *o,
                        None => s.subs.push((x.to_string(), *o)),
                    }
                }
                exp.entry(i).or_default().ctrl.push(Ctl::Exactly(P::SubAck {
                    pid: self.pid,
                    props: vec![],
                    reasons: f.iter().map(|x| x.1 & 3).collect(),
                }));
            }
            Op::Unsub { slot, f } => {
                self.pid += 1;
                let id = self.id_of(*slot).unwrap();
                let i = self.slots[*slot].unwrap();
                self.net.peers[i].send(&unsubscribe(self.pid, f));
                let s = self.sess.get_mut(&id).unwrap();
                let mut reasons = vec![];
                for x in f {
                    let n = s.subs.len();
                    s.subs.retain(|y| y.0 != *x);
                    reasons.push(if s.subs.len() < n { 0 } else { 0x11 });
                }
                exp.entry(i).or_default().ctrl.push(Ctl::Exactly(P::UnsubAck { pid: self.pid, props: vec![], reasons }));
            }
            Op::Pub { slot, topic, qos, dup } => {
                let id = self.id_of(*slot).unwrap();
                let i = self.slots[*slot].unwrap();
                let mut pid = 0;
                if *qos > 0 {
                    self.pid += 1;
                    pid = self.pid;
                    exp.entry(i).or_default().ctrl.push(Ctl::Exactly(ack(4, pid)));
                }
                let mut p = publish(topic, *qos, pid, tag.as_bytes());
                if let P::Publish { props, dup: d, .. } = &mut p {
                    *props = self.props.clone();
                    *d = *dup && *qos > 0;
                }
                self.net.peers[i].send(&p);
                self.route(&mut exp, &id, topic, tag.as_bytes(), *qos, true);
            }
            Op::Ack { slot, which } => {
                let id = self.id_of(*slot).unwrap();
                let i = self.slots[*slot].unwrap();
                let s = self.sess.get_mut(&id).unwrap();
                let pids: Vec<u16> = match which {
                    Which::First => vec![s.pend.remove(0).pid],
                    Which::Last => vec![s.pend.pop().unwrap().pid],
                    Which::All => s.pend.drain(..).map(|p| p.pid).collect(),
                    Which::Unknown => vec![60_000],
                };
                for p in pids {
                    self.net.peers[i].send(&ack(4, p));
                }
            }
            Op::Ping { slot } => {
                let i = self.slots[*slot].unwrap();
                self.net.peers[i].send(&P::PingReq);
                exp.entry(i).or_default().ctrl.push(Ctl::Exactly(P::PingResp));
            }
            Op::Bye { slot, reason } => {
                let id = self.id_of(*slot).unwrap();
                let i = self.slots[*slot].unwrap();
                self.net.peers[i].send(&disconnect(*reason));
                if *reason == 0 {
                    let s = self.sess.get_mut(&id).unwrap();
                    s.will = None;
                    s.conn = None;
                } else {
                    self.lost(&mut exp, &id, w.now);
                }
                exp.entry(i).or_default().closed = Some(true);
            }
            Op::Drop { slot } | Op::Reset { slot } => {
                let id = self.id_of(*slot).unwrap();
                let i = self.slots[*slot].take().unwrap();
                if matches!(op, Op::Drop { .. }) {
                    self.net.peers[i].close();
                } else {
                    self.net.peers[i].reset();
                }
                self.lost(&mut exp, &id, w.now);
                self.retire(i);
            }
            Op::Garbage { slot } => {
                let id = self.id_of(*slot).unwrap();
                let i = self.slots[*slot].unwrap();
                self.net.peers[i].send_raw(&[0xd1, 0x00]);
                self.lost(&mut exp, &id, w.now);
                let e = exp.entry(i).or_default();
                e.closed = Some(true);
            }
            Op::Tick { ms } => settle = *ms,
        }
        if let Some(sl) = op.slot() {
            if let Some(id) = self.id_of(sl) {
                self.sess.get_mut(&id).unwrap().heard = w.now;
            }
        }
        self.pass(&mut exp, w.now + settle);
        let ops = format!("{op:?}");
        w.run();
        if settle > 0 {
            w.advance(settle)
        }
        self.compare(w, &ops, exp);
    }
    fn retire(&mut self, i: usize) {
        if self.retired.len() <= i {
            self.retired.resize(i + 1, false)
        }
        self.retired[i] = true;
    }

    fn compare(&mut self, w: &mut World, ops: &str, mut exp: BTreeMap<usize, Exp>) {
        if w.spun {
            w.fail("idle/spinning", format!("after {ops} the broker keeps running although nothing happens"));
        }
        if let Some(m) = mcbase::take_panic() {
            w.fail("panic/panic", format!("{ops}: {m}"));
        }
        let mut line = format!("{ops} =>");
        for i in 0..self.net.peers.len() {
            let got = self.net.peers[i].recv();
            let closed = self.net.peers[i].closed();
            if self.retired.get(i) == Some(&true) {
                continue;
            }
            let name = self.net.peers[i].name.clone();
            if !got.is_empty() || exp.contains_key(&i) {
                line.push_str(&format!(" {name}: {}{}", shows(&got), if closed { " closed" } else { "" }));
            }
            let e = exp.remove(&i).unwrap_or_default();
            if let Some(g) = &self.net.peers[i].garbled {
                let g = g.clone();
                w.note(line.clone());
                w.fail("garbled/garbled", format!("{name} received bytes that are no packets: {g}"));
                return;
            }
            if let Err((k, d)) = self.judge(i, &got, &e) {
                w.note(line.clone());
                w.fail(&k, format!("{ops}: {name}: {d}"));
                return;
            }
            match e.closed {
                Some(true) if !closed => {
                    w.note(line.clone());
                    let k = match &e.ctrl[..] {
                        [Ctl::Bye(_)] => "takeover/open",
                        [Ctl::Refused] => "slot/open",
                        _ => "closed/open",
                    };
                    w.fail(k, format!("{ops}: the connection of {name} is still open"));
                    return;
                }
                Some(true) => self.retire(i),
                _ if closed => {
                    w.note(line.clone());
                    w.fail("closed/unasked", format!("{ops}: the connection of {name} was closed"));
                    return;
                }
                _ => {}
            }
        }
        w.note(line);
    }

    fn judge(&mut self, i: usize, got: &[P], e: &Exp) -> Result<(), (String, String)> {
        let bad = |k: &str, d: String| Err((k.to_string(), d));
        let (dl, ct): (Vec<&P>, Vec<&P>) = got.iter().partition(|p| matches!(p, P::Publish { .. }));
        // control packets, in order
        let kind = |c: &Ctl| match c {
            Ctl::ConnAck { .. } => "connack",
            Ctl::Refused => "slot",
            Ctl::Exactly(_) => "answer",
            Ctl::Bye(_) => "takeover",
        };
        for (k, c) in e.ctrl.iter().enumerate() {
            let Some(g) = ct.get(k) else {
                return bad(&format!("{}/missing", kind(c)), format!("expected {c:?}, got nothing"));
            };
            match (c, g) {
                (Ctl::ConnAck { sp }, P::ConnAck { sp: s, reason: 0, .. }) => {
                    if s != sp {
                        return bad("connack/session-present", format!("session present is {s}, not {sp}"));
                    }
                    if !matches!(got[0], P::ConnAck { .. }) {
                        return bad("connack/not-first", shows(got));
                    }
                }
                (Ctl::Refused, P::ConnAck { sp: false, reason: 0x97, .. }) => {}
                (Ctl::Exactly(P::UnsubAck { pid, reasons, .. }), P::UnsubAck { pid: p2, reasons: r2, .. }) => {
                    if pid != p2 || reasons.len() != r2.len() {
                        return bad("answer/unsuback", format!("{} instead of id{pid},{reasons:x?}", show(g)));
                    }
                    if reasons != r2 {
                        return bad("codes/unsuback", format!("{} instead of id{pid},{reasons:x?}", show(g)));
                    }
                }
                (Ctl::Exactly(P::SubAck { pid, reasons, .. }), P::SubAck { pid: p2, reasons: r2, .. }) => {
                    // a lower grant would be allowed, a higher one not; the deliveries tell which it was
                    if pid != p2 || reasons.len() != r2.len() || reasons.iter().zip(r2).any(|(a, b)| b > a) {
                        return bad("answer/suback", format!("{} instead of id{pid},{reasons:x?}", show(g)));
                    }
                    if reasons != r2 {
                        return bad("codes/suback", format!("{} instead of id{pid},{reasons:x?}", show(g)));
                    }
                }
                (Ctl::Exactly(P::Ack { kind: 4, pid, .. }), P::Ack { kind: 4, pid: p2, reason, .. })
                    if pid == p2 && *reason < 0x80 => {}
                (Ctl::Exactly(a), b) if a == *b => {}
                (Ctl::Bye(r), P::Disconnect { reason, .. }) if r == reason => {}
                _ => return bad(&format!("{}/wrong", kind(c)), format!("expected {c:?}, got {}", show(g))),
            }
        }
        // saying why a connection is closed is allowed where closing is expected
        let extra = &ct[e.ctrl.len()..];
        let extra_ok = e.closed == Some(true) && extra.len() == 1 && matches!(extra[0], P::Disconnect { reason, .. } if *reason >= 0x80);
        if !extra.is_empty() && !extra_ok {
            return bad("answer/unasked", format!("unexpected {}", extra.iter().map(|p| show(p)).collect::<Vec<_>>().join(" ")));
        }
        // deliveries: redeliveries first
        let mut k = 0;
        for a in &e.again {
            match dl.get(k) {
                Some(P::Publish { dup, qos, topic, pid, payload, .. }) => {
                    if *payload != a.payload || *topic != a.topic {
                        return bad("redeliver/order", format!("{} instead of {a:?}", show(dl[k])));
                    }
                    if *pid != Some(a.pid) || *qos != 1 {
                        return bad("redeliver/identifier", format!("{} instead of {a:?}", show(dl[k])));
                    }
                    if !dup {
                        return bad("redeliver/no-dup", show(dl[k]).to_string());
                    }
                }
                _ => return bad("redeliver/missing", format!("{a:?} was not delivered again")),
            }
            k += 1;
        }
        let mut id = self.sess.iter().find(|(_, s)| s.conn == Some(i)).map(|x| x.0.clone());
        if id.is_none() && e.closed == Some(true) {
            // delivered in the same step before the connection was dropped
            id = self.owner.get(&i).filter(|o| self.sess.get(*o).is_some_and(|s| s.conn.is_none())).cloned();
        }
        let mut seen = vec![0usize; e.fresh.len()];
        let mut qs: Vec<Vec<u8>> = vec![vec![]; e.fresh.len()];
        let mut at = 0;
        for d in &dl[k..] {
            let P::Publish { dup, qos, topic, pid, payload, props, retain } = d else { unreachable!() };
            let Some(x) = e.fresh.iter().position(|f| f.1 == *payload) else {
                let k = if e.again.is_empty() { "deliver/unexpected" } else { "redeliver/unexpected" };
                return bad(k, format!("unexpected {}", show(d)));
            };
            if x < at {
                return bad("deliver/order", format!("{} out of order", show(d)));
            }
            at = x;
            let f = &e.fresh[x];
            seen[x] += 1;
            qs[x].push(*qos);
            if *topic != f.0 {
                return bad("content/topic", format!("{} instead of {}", show(d), f.0));
            }
            if !payload.contains(&b'w') && canon(props) != canon(&self.props) {
                return bad("content/properties", format!("{props:?} instead of {:?}", self.props));
            }
            if *dup {
                return bad("content/dup", format!("first delivery marked as duplicate: {}", show(d)));
            }
            let _ = retain;
            if *qos > 0 {
                let id = id.as_ref().ok_or(("deliver/nobody".to_string(), String::new()))?;
                let p = pid.unwrap_or(0);
                let s = self.sess.get_mut(id).unwrap();
                if p == 0 || s.pend.iter().any(|y| y.pid == p) {
                    return bad("content/identifier", format!("{} while {:?} are pending", show(d), s.pend));
                }
                s.pend.push(Pend { pid: p, topic: topic.clone(), payload: payload.clone() });
            }
        }
        for (x, f) in e.fresh.iter().enumerate() {
            if seen[x] == 0 {
                if f.4 {
                    return bad("deliver/missing", format!("{} ({}) was not delivered", f.0, String::from_utf8_lossy(&f.1)));
                }
                continue;
            }
            if !f.4 {
                self.delayed.retain(|d| d.will.tag.as_bytes() != f.1);
            }
            if seen[x] > f.3.len() {
                return bad("deliver/twice", format!("{} copies of {} for {} subscriptions", seen[x], f.0, f.3.len()));
            }
            let mut want: Vec<u8> = f.3.iter().map(|o| (o & 3).min(f.2)).collect();
            want.sort();
            qs[x].sort();
            let ok = if qs[x].len() == want.len() { qs[x] == want } else { qs[x].last() == want.last() };
            if !ok {
                return bad("content/qos", format!("delivered with QoS {:?}, subscriptions and message allow {want:?}", qs[x]));
            }
        }
        Ok(())
    }
}
