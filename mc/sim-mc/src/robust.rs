//! Keep-alive, stalled clients, the state before CONNECT, and malformed input.
use crate::ends::{fits, pubsn};
use crate::explore::*;
use crate::net::*;
use crate::sched::*;
use mcbase::Ctx;
use refmqtt::{P, PV};
use std::time::Duration;
use vaux_broker::Config;

// ------------------------------------------------------------------ B12

/// Keep-alive in force according to what was asked for and answered.
fn announced(asked: u16, got: &P) -> u16 {
    match got {
        P::ConnAck { props, .. } => props
            .iter()
            .find_map(|p| match (p.id, &p.v) {
                (0x13, PV::U16(k)) => Some(*k),
                _ => None,
            })
            .unwrap_or(asked),
        _ => asked,
    }
}
fn dial_ka(w: &mut World, n: &mut Net, id: &str, clean: bool, asked: u16) -> Option<(usize, u64)> {
    let i = n.dial(id).unwrap();
    n.peers[i].send(&keep(keep_alive(connect(id, clean), asked)));
    settle(w);
    let v = n.peers[i].recv();
    match v.first() {
        Some(c @ P::ConnAck { reason: 0, .. }) => Some((i, announced(asked, c) as u64 * 1000)),
        x => {
            w.fail("connack/missing", format!("{id} asking for {asked} s: {x:?}"));
            None
        }
    }
}
/// Lets time pass while everybody but `but` keeps talking.
fn pass(w: &mut World, n: &mut Net, but: &[usize], ms: u64) {
    let mut left = ms;
    while left > 0 {
        let s = left.min(1_000);
        w.advance(s);
        left -= s;
        for i in 0..n.peers.len() {
            if !but.contains(&i) {
                n.peers[i].send(&P::PingReq);
            }
        }
        w.run();
    }
}
/// The client falls silent now: it must stay for `k` and be gone after 1.5 `k`.
fn silent(w: &mut World, n: &mut Net, a: usize, k: u64, said: u64, why: &str) {
    if k == 0 {
        // no keep-alive
        pass(w, n, &[a], 400_000);
        if n.peers[a].closed() {
            w.fail("keepalive/disabled", format!("{why}: announced keep-alive 0, dropped for silence"));
        }
        return;
    }
    let since = w.now - said;
    if since < k {
        pass(w, n, &[a], k - since);
    }
    if w.now - said <= k && n.peers[a].closed() {
        w.fail("keepalive/early", format!("{why}: dropped {} ms after its last packet, keep-alive {k} ms", w.now - said));
        return;
    }
    let since = w.now - said;
    let limit = k * 3 / 2 + 5;
    if since < limit {
        pass(w, n, &[a], limit - since);
    }
    if !n.peers[a].closed() {
        w.fail("keepalive/late", format!("{why}: still connected {} ms after its last packet, keep-alive {k} ms", w.now - said));
    }
}

pub fn b12(ctx: &Ctx) {
    ctx.rule("every placement of packets of five kinds and deliveries on a one-second grid against keep-alives of 3 and 4 s, then silence measured to 5 ms; every class of requested keep-alive, resumed, taken over and fresh; deliveries racing with the last moment under every schedule with the stated number of deviations");
    let deep = ctx.thorough;
    let small = || Config { default_keep_alive: Duration::from_secs(3), max_keep_alive: Duration::from_secs(4), ..config() };
    // what happens in each second
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum A {
        Nothing,
        Ping,
        Deliver,
        Pub,
        Ack,
        Part,
    }
    use A::*;
    let acts: &[A] = &[Nothing, Deliver, Ping, Pub, Ack, Part];
    let slots = if deep { 9 } else { 7 };
    explore(ctx, "grid", Cfg::NONE, &|w| {
        let asked = [3u16, 4][w.pick(2)];
        let mut n = Net::start(w, small());
        let p = join(w, &mut n, &keep(keep_alive(connect("pub", true), 4)));
        let Some((a, k)) = dial_ka(w, &mut n, "a", true, asked) else { return };
        ask(w, &mut n, a, &subscribe(1, &[("t", 1)]));
        let mut said = w.now;
        let mut hist = vec![];
        let mut owed = 0;
        let mut pending: Vec<u16> = vec![];
        for s in 0..slots {
            // the third second on: at most one of the rarer acts, to keep the space small
            let rare = hist.iter().filter(|x| matches!(x, Pub | Ack | Part)).count();
            let act = acts[w.pick(if rare < if deep { 3 } else { 2 } { acts.len() } else { 3 })];
            hist.push(act);
            match act {
                Nothing => {}
                Ping => n.peers[a].send(&P::PingReq),
                Pub => n.peers[a].send(&publish("x", 0, 0, b"hello")),
                Ack => n.peers[a].send(&ack(4, pending.pop().unwrap_or(99))),
                // a packet that only begins is no packet
                Part => {
                    if owed == 0 {
                        n.peers[a].send_raw(&[0x30, 8, 0, 1, b'x', 0]);
                        owed = 4
                    } else {
                        n.peers[a].send_raw(b"z");
                        owed -= 1;
                        if owed == 0 {
                            said = w.now
                        }
                    }
                }
                Deliver => n.peers[p].send(&publish("t", 1, s + 1, b"x")),
            }
            if matches!(act, Ping | Pub | Ack) {
                if owed > 0 {
                    // it would be read as the rest of the packet begun
                    w.note("(not a history)");
                    return;
                }
                said = w.now
            }
            settle(w);
            for q in n.peers[a].recv() {
                if let P::Publish { pid: Some(i), .. } = q {
                    pending.push(i)
                }
            }
            pass(w, &mut n, &[a], 1_000);
            let gone = n.peers[a].closed();
            let since = w.now - said;
            if gone && since <= k {
                w.fail("keepalive/early", format!("{hist:?}: dropped {since} ms after its last packet, keep-alive {k} ms"));
                return;
            }
            if !gone && since >= k * 3 / 2 + 5 {
                w.fail("keepalive/late", format!("{hist:?}: still connected {since} ms after its last packet, keep-alive {k} ms"));
                return;
            }
            if gone {
                w.note(format!("{hist:?} keep-alive {k}: dropped {since} ms after the last packet"));
                return;
            }
        }
        w.note(format!("{hist:?} keep-alive {k}"));
        silent(w, &mut n, a, k, said, &format!("{hist:?}"));
        health(w);
    });
    // every class of request
    let classes: &[u16] = &[0, 1, 2, 44, 45, 46, 60, 119, 120, 179, 180, 181, 600, 65_535];
    let ways = 5;
    explore(ctx, "classes", Cfg::NONE, &|w| {
        let cfg = w.pick(4);
        let s = Duration::from_secs;
        let (lo, hi) = [(45, 180), (1, 2), (0, 65_535), (100, 100)][cfg];
        let mut n = Net::start(w, Config { default_keep_alive: s(lo), max_keep_alive: s(hi), ..config() });
        let asked = classes[w.pick(classes.len())];
        let way = w.pick(ways);
        let before = if way > 0 { classes[w.pick(classes.len())] } else { 60 };
        let mut old = None;
        if way > 0 {
            let Some((b, _)) = dial_ka(w, &mut n, "a", true, before) else { return };
            old = Some(b);
            if way == 1 || way == 2 {
                n.peers[b].close();
                settle(w);
            }
        }
        let Some((a, k)) = dial_ka(w, &mut n, "a", way % 2 == 0, asked) else { return };
        let mut but = vec![a];
        but.extend(old);
        // talking once per keep-alive is enough
        for r in 0..3 {
            if k > 0 {
                pass(w, &mut n, &but, if k > 400_000 { 1 } else { k });
                if k > 400_000 {
                    w.advance(k - 1)
                }
            } else {
                w.advance(1_000_000)
            }
            n.peers[a].send(&P::PingReq);
            settle(w);
            let v = n.peers[a].recv();
            if !v.contains(&P::PingResp) || n.peers[a].closed() {
                w.fail("keepalive/early", format!("asked {asked} after {before} (way {way}, {lo}..{hi}): round {r}, dropped although it sends one packet per {k} ms; got {}", shows(&v)));
                return;
            }
        }
        if k > 400_000 {
            w.advance(k);
            if n.peers[a].closed() {
                w.fail("keepalive/early", format!("asked {asked}"));
                return;
            }
            w.advance(k / 2 + 5);
            if !n.peers[a].closed() {
                w.fail("keepalive/late", format!("asked {asked}"));
            }
            return;
        }
        let said = w.now;
        silent(w, &mut n, a, k, said, &format!("asked {asked} after {before} (way {way}, {lo}..{hi})"));
        w.note(format!("asked {asked} after {before} way {way} {lo}..{hi}: {k}"));
        health(w);
    });
    // deliveries and answers at the last moment, under all schedules
    explore(ctx, "last moment", Cfg::all(if deep { 3 } else { 2 }), &|w| {
        let at = [0u64, 1, 2_999, 3_000][w.pick(4)];
        let what = w.pick(3);
        let (mut n, p, a) = w.quiet(|w| {
            let mut n = Net::start(w, small());
            let p = join(w, &mut n, &keep(keep_alive(connect("pub", true), 4)));
            let (a, _) = dial_ka(w, &mut n, "a", true, 3).unwrap();
            ask(w, &mut n, a, &subscribe(1, &[("t", 0)]));
            (n, p, a)
        });
        let mut said = w.now;
        for r in 0..3 {
            w.quiet(|w| pass(w, &mut n, &[a], at));
            n.peers[p].send(&publish("t", 0, 0, b"x"));
            w.run_or_stop();
            n.peers[a].send(&match what {
                0 => P::PingReq,
                1 => publish("y", 1, 5 + r, b"y"),
                _ => subscribe(7 + r, &[("z", 0)]),
            });
            said = w.now;
            settle(w);
            n.peers[a].recv();
            if n.peers[a].closed() {
                w.fail("keepalive/early", format!("round {r}: dropped although it sends a packet every {at} ms"));
                return;
            }
        }
        w.quiet(|w| {
            silent(w, &mut n, a, 3_000, said, "afterwards");
        });
        health(w);
    });
    // a client that has stopped reading as well
    explore(ctx, "not reading", Cfg::NONE, &|w| {
        let win = w.pick(8) + 1;
        let when = w.pick(6) as u64 * 1_000;
        let talk = w.pick(3);
        let mut n = Net::start(w, small());
        let p = join(w, &mut n, &keep(keep_alive(connect("pub", true), 4)));
        let Some((a, k)) = dial_ka(w, &mut n, "a", true, 3) else { return };
        ask(w, &mut n, a, &subscribe(1, &[("t", 1)]));
        n.peers[a].window(win);
        if talk == 1 {
            n.peers[a].send(&P::PingReq);
            n.peers[a].send(&subscribe(3, &[("z", 0)]));
        }
        let said = w.now;
        settle(w);
        pass(w, &mut n, &[a], when.min(4_000));
        n.peers[p].send(&publish("t", 1, 1, b"x"));
        settle(w);
        if talk == 2 {
            n.peers[p].send(&publish("t", 0, 0, b"another, longer one"));
        }
        let limit = 3 * k + 1_010;
        let since = w.now - said;
        pass(w, &mut n, &[a], limit - since);
        let closed = n.peers[a].closed() || n.peers[a].gone();
        w.note(format!("window {win}, delivery after {when}, talk {talk}: closed {closed}"));
        if !closed {
            w.fail("keepalive/stuck", format!("window {win}: still connected {} ms after its last packet, keep-alive {k} ms", w.now - said));
        }
        health(w);
    });
    // one that does not even read the answer to its CONNECT, or what is delivered again
    explore(ctx, "not reading from the start", Cfg::NONE, &|w| {
        let win = w.pick(40);
        let pending = w.pick(3);
        let over = w.pick(3);
        let mut n = Net::start(w, small());
        let p = join(w, &mut n, &keep(keep_alive(connect("pub", true), 4)));
        let old = join(w, &mut n, &keep(keep_alive(connect("a", true), 3)));
        ask(w, &mut n, old, &subscribe(1, &[("t", 1)]));
        for k in 0..pending {
            ask(w, &mut n, p, &publish("t", 1, k as u16 + 1, b"pending"));
        }
        if over == 0 {
            n.peers[old].close();
            settle(w);
        }
        let i = n.dial("a'").unwrap();
        n.peers[i].window(win);
        n.peers[i].send(&keep(keep_alive(connect("a", over == 2), 3)));
        settle(w);
        if win > 0 && win % 3 == 0 {
            // reads a few bytes now and then, but says nothing
            for _ in 0..3 {
                n.peers[i].take_raw();
                settle(w);
            }
        }
        // before CONNECT is answered the default limit of 45 s holds, then the 3 s announced
        pass(w, &mut n, &[i, old], 2 * 45_000 + 10_000);
        let closed = n.peers[i].closed() || n.peers[i].gone();
        if !closed {
            w.fail("keepalive/stuck", format!("window {win}: a client that never reads its CONNACK is still connected after 100 s"));
        }
        health(w);
    });
}

// ------------------------------------------------------------------ B13

#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
    Pub1,
    Burst,
    StuckPing,
    StuckSub,
    StuckPub,
    Take,
    TakeClean,
    TakeStuck,
    Close,
    Reset,
    Bye,
    Tick,
    Read,
    Second,
}
use S::*;
const OPS: &[S] = &[Pub1, Burst, StuckPing, StuckSub, StuckPub, Take, TakeClean, TakeStuck, Close, Reset, Bye, Tick, Read, Second];

struct Stalled {
    n: Net,
    publ: usize,
    rd: usize,
    by: usize,
    /// connections of the client that does not read, latest last
    stuck: Vec<usize>,
    live: Option<usize>,
    sent: Vec<String>,
    got: Vec<String>,
    window: usize,
    served: u16,
    racing: bool,
}
impl Stalled {
    fn new(w: &mut World, window: usize, chan: usize) -> Stalled {
        w.quiet(|w| {
            let mut n = Net::start(w, Config { session_channel_size: chan, max_active_sessions: Some(6), ..config() });
            let publ = joined(w, &mut n, "pub");
            let rd = joined(w, &mut n, "rd");
            let by = joined(w, &mut n, "by");
            ask(w, &mut n, rd, &subscribe(1, &[("t", 1), ("w", 0)]));
            ask(w, &mut n, by, &subscribe(1, &[("by", 1)]));
            let a = join(w, &mut n, &with_will(keep(connect("stuck", true)), "w", b"will", 0, 0));
            ask(w, &mut n, a, &subscribe(1, &[("t", 1)]));
            n.peers[a].window(window);
            Stalled { n, publ, rd, by, stuck: vec![a], live: Some(a), sent: vec![], got: vec![], window, served: 1, racing: false }
        })
    }
    fn act(&mut self, w: &mut World, o: S) {
        let n = &mut self.n;
        let k = self.sent.len();
        match o {
            Pub1 => {
                n.peers[self.publ].send(&publish("t", 1, k as u16 + 1, format!("m{k}").as_bytes()));
                self.sent.push(format!("m{k}"));
            }
            Burst => {
                for k in k..k + 3 {
                    n.peers[self.publ].send(&publish("t", 0, 0, format!("m{k}").as_bytes()));
                    self.sent.push(format!("m{k}"));
                }
            }
            Take | TakeClean | TakeStuck => {
                let i = n.dial("stuck'").unwrap();
                if o == TakeStuck {
                    n.peers[i].window(self.window);
                }
                n.peers[i].send(&keep(connect("stuck", o == TakeClean)));
                self.stuck.push(i);
                self.live = Some(i);
            }
            Second => {
                // another client that never reads, not even its CONNACK
                let i = n.dial("mute").unwrap();
                n.peers[i].window(self.window);
                n.peers[i].send(&with_will(keep(connect("mute", false)), "w", b"mute", 0, 0));
                n.peers[i].send(&subscribe(1, &[("t", 1)]));
                self.stuck.push(i);
            }
            Tick => {
                for _ in 0..3 {
                    w.advance(10_000);
                    for i in [self.publ, self.rd, self.by] {
                        pongs_keep(w, &mut self.n, i, &mut self.got);
                    }
                }
            }
            o => {
                let Some(a) = self.live else { return };
                let p = &mut n.peers[a];
                match o {
                    StuckPing => p.send(&P::PingReq),
                    StuckSub => p.send(&subscribe(2, &[("u", 1)])),
                    StuckPub => p.send(&publish("t", 1, 9, b"from the stuck one")),
                    Close => p.close(),
                    Reset => p.reset(),
                    Bye => p.send(&disconnect(0)),
                    Read => {
                        p.window(1 << 20);
                        w.run();
                        let p = &mut self.n.peers[a];
                        p.recv();
                        p.window(self.window);
                    }
                    _ => unreachable!(),
                }
                if matches!(o, Close | Reset | Bye) {
                    self.live = None
                }
            }
        }
    }
    /// Everybody who reads is served now, without time passing.
    fn serve(&mut self, w: &mut World, why: &str, full: bool) {
        settle(w);
        let t = w.now;
        for i in [self.publ, self.rd, self.by] {
            pongs_keep(w, &mut self.n, i, &mut self.got);
        }
        let got: Vec<&String> = self.got.iter().filter(|x| x.starts_with('m') && *x != "mute").collect();
        if got != self.sent.iter().collect::<Vec<_>>() && !w.dead {
            w.fail("served/deliveries", format!("{why}: the reading subscriber has {got:?} of {:?}", self.sent));
        }
        if full && !w.dead {
            self.served += 1;
            let by = self.by;
            let k = self.served;
            let v = ask(w, &mut self.n, by, &subscribe(k, &[("by/2", 0)]));
            let v2 = ask(w, &mut self.n, by, &publish("by", 1, k, b"self"));
            let v3 = ask(w, &mut self.n, by, &unsubscribe(k, &["by/2"]));
            let ok = matches!(&v[..], [P::SubAck { .. }]) && pubsn(&v2, "self") == 1 && v2.len() == 2 && matches!(&v3[..], [P::UnsubAck { .. }]);
            for p in &v2 {
                if let P::Publish { pid: Some(p), .. } = p {
                    self.n.peers[by].send(&ack(4, *p));
                }
            }
            if !ok {
                w.fail("served/requests", format!("{why}: the bystander's requests got {} | {} | {}", shows(&v), shows(&v2), shows(&v3)));
                return;
            }
            let f = self.n.dial("fresh").unwrap();
            let v = ask(w, &mut self.n, f, &connect("fresh", true));
            if !matches!(v.first(), Some(P::ConnAck { reason: 0, .. })) {
                w.fail("served/connect", format!("{why}: a fresh client got {}", shows(&v)));
                return;
            }
            ask(w, &mut self.n, f, &disconnect(0));
        }
        // a reading successor of the stuck client as well; of several in a race, one
        let all: Vec<usize> = self.stuck[1..].iter().copied().filter(|i| self.n.peers[*i].name == "stuck'").collect();
        let which = match self.live {
            Some(a) if !self.racing => if all.contains(&a) && !self.mute(a) { vec![a] } else { vec![] },
            Some(_) if all.iter().all(|i| !self.mute(*i)) => all,
            _ => vec![],
        };
        if !which.is_empty() {
            let mut seen = vec![];
            for a in &which {
                seen.push(ask(w, &mut self.n, *a, &P::PingReq));
            }
            if seen.iter().filter(|v| v.contains(&P::PingResp)).count() != 1 {
                w.fail("served/successor", format!("{why}: the connections that took over got {}", seen.iter().map(|v| shows(v)).collect::<Vec<_>>().join(" | ")));
            }
        }
        if w.now != t {
            w.fail("harness", "time passed");
        }
    }
    fn mute(&self, i: usize) -> bool {
        self.n.peers[i].is_windowed()
    }
    /// After the stuck connections have had their time.
    fn end(&mut self, w: &mut World, why: &str) {
        for _ in 0..19 {
            w.advance(10_000);
            for i in [self.publ, self.rd, self.by] {
                pongs_keep(w, &mut self.n, i, &mut self.got);
            }
        }
        for i in self.stuck.clone() {
            let p = &self.n.peers[i];
            if self.n.peers[i].is_windowed() && !p.closed() && !p.gone() {
                w.fail("served/stays", format!("{why}: a connection that has not been read for 190 s is still open"));
                return;
            }
        }
        let i = self.n.dial("again").unwrap();
        self.n.peers[i].send(&keep(connect("stuck", false)));
        settle(w);
        let v = self.n.peers[i].recv();
        if !matches!(v.first(), Some(P::ConnAck { reason: 0, sp: true, .. })) {
            w.fail("served/session", format!("{why}: resuming the session of the stuck client got {}", shows(&v)));
            return;
        }
        // what is delivered again is in order, each once
        let again: Vec<&str> = v
            .iter()
            .filter_map(|p| match p {
                P::Publish { payload, dup: true, pid: Some(_), .. } => std::str::from_utf8(payload).ok(),
                _ => None,
            })
            .filter(|x| x.starts_with('m'))
            .collect();
        let order: Vec<&str> = self.sent.iter().map(|x| x.as_str()).filter(|x| again.contains(x)).collect();
        if again != order {
            w.fail("served/session", format!("{why}: redelivered {again:?} of {:?}", self.sent));
        }
        for p in &mut self.n.peers {
            p.close()
        }
        settle(w);
        fits(w, &mut self.n, 6);
    }
}
fn pongs_keep(w: &mut World, n: &mut Net, i: usize, got: &mut Vec<String>) {
    let v = pongs(w, n, i, "a reading client");
    for p in &v {
        if let P::Publish { pid: Some(p), .. } = p {
            n.peers[i].send(&ack(4, *p));
        }
    }
    if n.peers[i].name.starts_with("rd") {
        got.extend(pubs(&v));
    }
}

pub fn b13(ctx: &Ctx) {
    ctx.rule("every sequence of 14 operations around a client that does not read (0, 1 or 9 bytes of window) to the stated depth; after each one every reading client must be answered and a fresh client admitted without time passing; pairs of operations under every schedule with the stated number of deviations; afterwards slots and sessions are counted");
    let deep = ctx.thorough;
    for (window, depth) in [(0usize, 4), (1, 3), (9, 4), (30, 3)] {
        let depth = if deep { depth + 1 } else { depth };
        explore(ctx, &format!("operations, window {window}"), Cfg::NONE, &|w| {
            // room for all that the stuck client may have sent when it is read at last
            let mut s = Stalled::new(w, window, if deep { 5 } else { 3 });
            let mut hist = vec![];
            for _ in 0..depth {
                let o = OPS[w.pick(OPS.len())];
                if s.live.is_none() && matches!(o, StuckPing | StuckSub | StuckPub | Close | Reset | Bye | Read) {
                    break;
                }
                hist.push(o);
                s.act(w, o);
                s.serve(w, &format!("{hist:?}"), true);
                if w.dead {
                    return;
                }
            }
            w.note(format!("{hist:?}"));
            s.end(w, &format!("{hist:?}"));
            garbled(w, &s.n);
            health(w);
        });
    }
    // one that falls behind is disconnected: as long as it is not, it has lost nothing
    explore(ctx, "falling behind", Cfg::NONE, &|w| {
        let chan = w.pick(if deep { 6 } else { 4 }) + 1;
        let window = [0usize, 1, 9, 30, 200][w.pick(5)];
        let total = [1usize, 2, 3, 4, 5, 6, 9, 20][w.pick(8)];
        let mix = w.pick(4);
        let grant = w.pick(2) as u8;
        let part = w.pick(3);
        let mut n = Net::start(w, Config { session_channel_size: chan, ..config() });
        let publ = joined(w, &mut n, "pub");
        let a = joined(w, &mut n, "slow");
        ask(w, &mut n, a, &subscribe(1, &[("t", grant)]));
        let b = joined(w, &mut n, "rd");
        ask(w, &mut n, b, &subscribe(1, &[("t", grant)]));
        n.peers[a].window(window);
        let mut sent = vec![];
        let mut got = vec![];
        for k in 0..total {
            let q = [0, 1, k % 2, (k / 2) % 2][mix] as u8;
            n.peers[publ].send(&publish("t", q, k as u16 + 1, format!("m{k}").as_bytes()));
            w.run();
            sent.push(format!("m{k}"));
            // it reads a little in between, or halfway
            if (part == 1 && k % 3 == 2) || (part == 2 && k == total / 2) {
                got.extend(pubs(&n.peers[a].recv()));
                w.run();
            }
        }
        settle(w);
        let closed = n.peers[a].closed() || n.peers[a].gone();
        n.peers[a].window(1 << 20);
        for _ in 0..4 {
            settle(w);
            got.extend(pubs(&n.peers[a].recv()));
        }
        let rd = pubs(&n.peers[b].recv());
        if rd != sent {
            w.fail("served/deliveries", format!("the reading subscriber has {rd:?} of {sent:?}"));
        }
        w.note(format!("queue {chan} window {window}: {got:?} of {} closed {closed}", sent.len()));
        let over = n.peers[a].closed() || n.peers[a].gone();
        if !over && got != sent {
            w.fail("behind/lost", format!("queue {chan}, window {window}: the connection is still open, it received {got:?} of {sent:?}"));
            return;
        }
        let want: Vec<&String> = sent.iter().filter(|m| got.contains(m)).collect();
        if got.iter().collect::<Vec<_>>() != want {
            w.fail("behind/order", format!("queue {chan}, window {window}: received {got:?}"));
        }
        if !over {
            let v = pongs(w, &mut n, a, "a client that has read at last");
            if v.len() != 1 {
                w.fail("behind/late", shows(&v));
            }
        }
        // whatever happened, its session goes on and can be filled and emptied again
        let i = n.dial("slow'").unwrap();
        n.peers[i].send(&keep(connect("slow", false)));
        settle(w);
        n.peers[i].recv();
        ask(w, &mut n, publ, &publish("t", 1, 900, b"probe"));
        let v = n.peers[i].recv();
        if pubsn(&v, "probe") != 1 || v.len() != 1 {
            w.fail("served/session", format!("queue {chan}, window {window}: afterwards the session's new connection receives {}", shows(&v)));
        }
        health(w);
    });
    // one that is behind by no more than the configured queue keeps its connection and loses nothing
    explore(ctx, "within the queue", Cfg::NONE, &|w| {
        let chan = [1usize, 2, 3, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1_000, 1_025, 5_000][w.pick(21)];
        let window = w.pick(2);
        let mix = w.pick(3);
        let once = w.pick(2) == 1;
        let mut n = Net::start(w, Config { session_channel_size: chan, ..config() });
        let publ = joined(w, &mut n, "pub");
        let a = joined(w, &mut n, "slow");
        ask(w, &mut n, a, &subscribe(1, &[("t", 1)]));
        n.peers[a].window(window);
        let mut sent = vec![];
        for k in 0..chan {
            n.peers[publ].send(&publish("t", [0, 1, k % 2][mix] as u8, (k % 65_535) as u16 + 1, format!("m{k}").as_bytes()));
            if !once {
                w.run();
            }
            sent.push(format!("m{k}"));
        }
        settle(w);
        n.peers[a].window(1 << 30);
        let mut got = vec![];
        for _ in 0..4 {
            settle(w);
            got.extend(pubs(&n.peers[a].recv()));
        }
        let what = format!("queue {chan}, all at once {once}, kind {mix}");
        if got != sent || n.peers[a].closed() || n.peers[a].gone() {
            w.fail("behind/early", format!("{what}: of {} messages that fit in the queue {} arrive, closed {}", sent.len(), got.len(), n.peers[a].closed()));
        }
    });
    // the same, racing
    let races: &[S] = &[Pub1, Burst, StuckPing, StuckSub, Take, TakeClean, TakeStuck, Close, Bye, Second];
    explore(ctx, "races", Cfg::all(if deep { 2 } else { 1 }), &|w| {
        let pre = [0usize, 8, 9][w.pick(3)];
        let mut s = Stalled::new(w, 1, 8);
        s.racing = true;
        w.quiet(|w| {
            for _ in 0..pre {
                s.act(w, Pub1);
                s.serve(w, "before", false);
            }
        });
        let (x, y) = (races[w.pick(races.len())], races[w.pick(races.len())]);
        s.act(w, x);
        w.run_or_stop();
        if s.live.is_none() && matches!(y, StuckPing | StuckSub | Close | Bye) {
            return;
        }
        s.act(w, y);
        w.run_or_stop();
        s.serve(w, &format!("{pre} messages, {x:?}, {y:?}"), false);
        w.quiet(|w| {
            if !w.dead {
                s.serve(w, &format!("{pre} messages, {x:?}, {y:?}"), true);
            }
            if !w.dead {
                s.end(w, &format!("{pre} messages, {x:?}, {y:?}"));
            }
        });
        w.note(format!("{pre} {x:?} {y:?}"));
        garbled(w, &s.n);
        health(w);
    });
}

// ------------------------------------------------------------------ B14

use refmqtt::{Form, Prop, encode, frame};

fn bytes(p: &P) -> Vec<u8> {
    encode(p, Form::Long)
}
/// Everything that may come first instead of a proper CONNECT.
fn firsts() -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let mut add = |p: P| v.push((show(&p), bytes(&p)));
    add(P::ConnAck { sp: false, reason: 0, props: vec![] });
    for q in 0..3 {
        add(publish("w/x", q, 5, b"too early"));
    }
    for k in 4..8 {
        add(ack(k, 1));
    }
    add(subscribe(5, &[("t/#", 1)]));
    add(P::SubAck { pid: 1, props: vec![], reasons: vec![0] });
    add(unsubscribe(5, &["t/vic"]));
    add(P::UnsubAck { pid: 1, props: vec![], reasons: vec![0] });
    add(P::PingReq);
    add(P::PingResp);
    for r in [0, 4, 0x8e] {
        add(disconnect(r));
    }
    add(P::Auth { reason: 0x18, props: vec![Prop { id: 0x15, v: PV::Str("m".into()) }] });
    let mut add = |n: &str, b: Vec<u8>| v.push((n.into(), b));
    let good = |id: &str| bytes(&with_will(keep(connect(id, true)), "w/x", b"will of nobody", 1, 0));
    let edit = |f: &dyn Fn(&mut Vec<u8>)| {
        let mut b = good("x");
        f(&mut b);
        b
    };
    add("CONNECT for MQIsdp", edit(&|b| b[4] = b'X'));
    add("CONNECT for version 3.1.1", edit(&|b| b[8] = 4));
    add("CONNECT for version 6", edit(&|b| b[8] = 6));
    add("CONNECT with the reserved flag", edit(&|b| b[9] |= 1));
    add("CONNECT with will QoS 3", edit(&|b| b[9] |= 0x18));
    add("CONNECT with reserved header bits", edit(&|b| b[0] |= 2));
    add("CONNECT without a payload", frame(0x10, &[0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 60, 0]));
    add("CONNECT with more than its fields", {
        let b = bytes(&connect("x", true));
        let mut body = b[2..].to_vec();
        body.extend([0, 1, b'z']);
        frame(0x10, &body)
    });
    add("CONNECT with a client identifier that is not UTF-8", frame(0x10, &[0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 60, 0, 0, 2, 0xc3, 0x28]));
    add("CONNECT with a receive maximum given twice", frame(
        0x10,
        &[0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 60, 6, 0x21, 0, 5, 0x21, 0, 5, 0, 1, b'x'],
    ));
    add("CONNECT with a property of another packet", frame(0x10, &[0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 60, 3, 0x23, 0, 5, 0, 1, b'x']));
    v
}
fn thens() -> Vec<(&'static str, Vec<u8>)> {
    let mut v = vec![("nothing", vec![])];
    v.push(("CONNECT", bytes(&with_will(keep(connect("x", true)), "w/x", b"will of nobody", 1, 0))));
    v.push(("CONNECT as vic", bytes(&keep(connect("vic", false)))));
    v.push(("SUBSCRIBE", bytes(&subscribe(6, &[("t/#", 1)]))));
    v.push(("UNSUBSCRIBE", bytes(&unsubscribe(6, &["t/vic"]))));
    v.push(("PUBLISH", bytes(&publish("w/x", 1, 6, b"too early"))));
    v.push(("PUBLISH QoS 0, PINGREQ", [bytes(&publish("w/x", 0, 0, b"too early")), bytes(&P::PingReq)].concat()));
    v.push(("DISCONNECT with will", bytes(&disconnect(4))));
    v
}
struct Scene {
    n: Net,
    wit: usize,
    vic: usize,
    pid: u16,
}
impl Scene {
    fn new(w: &mut World, limit: Option<u32>) -> Scene {
        w.quiet(|w| {
            let mut n = Net::start(w, Config { max_active_sessions: limit, ..config() });
            let wit = joined(w, &mut n, "wit");
            let vic = join(w, &mut n, &with_will(keep(connect("vic", true)), "w/vic", b"vic's will", 1, 0));
            ask(w, &mut n, wit, &subscribe(1, &[("w/#", 1)]));
            ask(w, &mut n, vic, &subscribe(1, &[("t/vic", 1)]));
            ask(w, &mut n, wit, &publish("t/vic", 1, 1, b"pending"));
            let pid = match &n.peers[vic].recv()[..] {
                _ if w.dead => 0,
                [P::Publish { pid: Some(p), .. }] => *p,
                _ => 1,
            };
            Scene { n, wit, vic, pid }
        })
    }
    /// The other clients have seen nothing and are as before; x has no session.
    fn judge(&mut self, w: &mut World, a: usize, before: &[P], why: &str, sessions: &[&str]) {
        w.advance(1_000);
        let mut got = before.to_vec();
        got.extend(self.n.peers[a].recv());
        if !self.n.peers[a].closed() && !self.n.peers[a].gone() {
            w.fail("early/open", format!("{why}: the connection is still open; it got {}", shows(&got)));
            return;
        }
        let honoured = got.iter().any(|p| !matches!(p, P::Disconnect { reason: 0x80.., .. } | P::ConnAck { reason: 0x80.., sp: false, .. }));
        if honoured {
            w.fail("early/honoured", format!("{why}: answered {}", shows(&got)));
        }
        let seen = self.n.peers[self.wit].recv();
        if !seen.is_empty() {
            w.fail("early/routed", format!("{why}: the witness received {}", shows(&seen)));
            return;
        }
        let (vic, wit) = (self.vic, self.wit);
        let v = ask(w, &mut self.n, vic, &P::PingReq);
        if v != [P::PingResp] {
            w.fail("early/other-connection", format!("{why}: another client's ping got {}", shows(&v)));
            return;
        }
        ask(w, &mut self.n, wit, &publish("t/vic", 1, 2, b"probe"));
        let v = self.n.peers[vic].recv();
        if pubsn(&v, "probe") != 1 {
            w.fail("early/other-session", format!("{why}: another client's subscription yields {}", shows(&v)));
            return;
        }
        self.n.peers[vic].close();
        settle(w);
        let seen = self.n.peers[wit].recv();
        if pubsn(&seen, "vic's will") != 1 || seen.len() != 1 {
            w.fail("early/other-will", format!("{why}: after another client's end the witness received {}", shows(&seen)));
        }
        let i = self.n.dial("vic'").unwrap();
        let v = ask(w, &mut self.n, i, &keep(connect("vic", false)));
        let ok = matches!(&v[..], [P::ConnAck { sp: true, reason: 0, .. }, P::Publish { dup: true, pid: Some(p), payload, .. }, P::Publish { dup: true, .. }] if *p == self.pid && payload == b"pending");
        if !ok {
            w.fail("early/other-session", format!("{why}: another client's session resumes with {}", shows(&v)));
        }
        for id in sessions {
            let i = self.n.dial(id).unwrap();
            let v = ask(w, &mut self.n, i, &keep(connect(id, false)));
            if !matches!(&v[..], [P::ConnAck { sp: false, reason: 0, .. }]) {
                w.fail("early/session", format!("{why}: connecting as {id} afterwards got {}", shows(&v)));
                return;
            }
            ask(w, &mut self.n, wit, &publish("t/other", 1, 3, b"other"));
            let v = self.n.peers[i].recv();
            if !v.is_empty() {
                w.fail("early/session", format!("{why}: {id} has a subscription: {}", shows(&v)));
            }
            ask(w, &mut self.n, i, &disconnect(0));
        }
        health(w);
    }
}
/// Sends both parts in one segment, in two, or cut in the middle of the first.
fn segments(w: &mut World, n: &mut Net, a: usize, x: &[u8], y: &[u8], seg: usize) -> Vec<P> {
    let all = [x, y].concat();
    let cut = [all.len(), x.len(), x.len() / 2, 1][seg];
    n.peers[a].send_raw(&all[..cut]);
    w.run_or_stop();
    let v = n.peers[a].recv();
    if cut < all.len() {
        n.peers[a].send_raw(&all[cut..]);
        w.run_or_stop();
    }
    settle(w);
    v
}

pub fn b14(ctx: &Ctx) {
    ctx.rule("every packet type and eleven malformed CONNECTs as the first packet, eight continuations, four segmentations; refused CONNECTs with the same continuations; twenty second CONNECTs at three points; every schedule with the stated number of deviations");
    let deep = ctx.thorough;
    let b = if deep { 2 } else { 1 };
    let (f, t) = (firsts(), thens());
    explore(ctx, "instead of CONNECT", Cfg::all(b), &|w| {
        let (x, y, seg) = (w.pick(f.len()), w.pick(t.len()), w.pick(4));
        let mut s = Scene::new(w, None);
        let a = s.n.dial("x").unwrap();
        let v = segments(w, &mut s.n, a, &f[x].1, &t[y].1, seg);
        let why = format!("{} then {} ({seg})", f[x].0, t[y].0);
        w.note(&*why);
        w.quiet(|w| s.judge(w, a, &v, &why, &["x"]));
    });
    explore(ctx, "two packets instead of CONNECT", Cfg::NONE, &|w| {
        let (x, y, z, seg) = (w.pick(f.len()), w.pick(f.len()), w.pick(t.len()), w.pick(3));
        let mut s = Scene::new(w, None);
        let a = s.n.dial("x").unwrap();
        let v = segments(w, &mut s.n, a, &f[x].1, &[&f[y].1[..], &t[z].1[..]].concat(), seg);
        let why = format!("{} then {} then {} ({seg})", f[x].0, f[y].0, t[z].0);
        w.note(&*why);
        w.quiet(|w| s.judge(w, a, &v, &why, &["x"]));
    });
    explore(ctx, "refused", Cfg::all(b), &|w| {
        let (clean, y, seg) = (w.pick(2) == 1, w.pick(t.len()), w.pick(4));
        let mut s = Scene::new(w, Some(2));
        let a = s.n.dial("x").unwrap();
        let x = bytes(&with_will(keep(connect("x", clean)), "w/x", b"will of nobody", 1, 0));
        let v = segments(w, &mut s.n, a, &x, &t[y].1, seg);
        let why = format!("refused, then {} ({seg})", t[y].0);
        w.note(&*why);
        if !w.dead {
            w.quiet(|w| {
                s.judge(w, a, &v, &why, &[]);
                let vic = s.n.peers.len() - 1;
                s.n.peers[vic].close();
                settle(w);
                let i = s.n.dial("x").unwrap();
                let v = ask(w, &mut s.n, i, &keep(connect("x", false)));
                if !matches!(&v[..], [P::ConnAck { sp: false, reason: 0, .. }]) {
                    w.fail("early/session", format!("{why}: connecting as x afterwards got {}", shows(&v)));
                }
            });
        }
    });
    // refused, with a session left behind earlier
    explore(ctx, "refused, with a session left behind", Cfg::all(b), &|w| {
        let (clean, y, seg) = (w.pick(2) == 1, w.pick(t.len()), w.pick(3));
        let mut s = Scene::new(w, Some(3));
        let (a, pid) = w.quiet(|w| {
            let o = join(w, &mut s.n, &with_will(keep(connect("x", true)), "w/x", b"x's will", 1, 500));
            ask(w, &mut s.n, o, &subscribe(1, &[("t/x", 1), ("t/#", 0)]));
            let wit = s.wit;
            ask(w, &mut s.n, wit, &publish("t/x", 1, 9, b"left behind"));
            let pid = match s.n.peers[o].recv().iter().find(|p| matches!(p, P::Publish { qos: 1, .. })) {
                Some(P::Publish { pid: Some(p), .. }) => *p,
                x => {
                    w.fail("early/setup", format!("{x:?}"));
                    0
                }
            };
            s.n.peers[o].close();
            settle(w);
            joined(w, &mut s.n, "third");
            (s.n.dial("x").unwrap(), pid)
        });
        if w.dead {
            return;
        }
        let x = bytes(&with_will(keep(connect("x", clean)), "w/x", b"will of nobody", 1, 0));
        let mut v = segments(w, &mut s.n, a, &x, &t[y].1, seg);
        let why = format!("x has a session, is refused, then {} ({seg})", t[y].0);
        w.note(&*why);
        w.quiet(|w| {
            w.advance(1_000);
            v.extend(s.n.peers[a].recv());
            if !matches!(&v[..], [P::ConnAck { sp: false, reason: 0x97, .. }, ..]) || !(s.n.peers[a].closed() || s.n.peers[a].gone()) {
                w.fail("early/open", format!("{why}: got {}", shows(&v)));
                return;
            }
            // its session is as it was, when there is room for it again
            let vic = s.vic;
            ask(w, &mut s.n, vic, &disconnect(0));
            let i = s.n.dial("x'").unwrap();
            let v = ask(w, &mut s.n, i, &keep(connect("x", false)));
            let ok = matches!(&v[..], [P::ConnAck { sp: true, reason: 0, .. }, P::Publish { dup: true, pid: Some(p), payload, .. }] if *p == pid && payload == b"left behind");
            if !ok {
                w.fail("early/session", format!("{why}: x resumes with {}", shows(&v)));
                return;
            }
            let wit = s.wit;
            ask(w, &mut s.n, wit, &publish("t/x", 0, 0, b"to x"));
            ask(w, &mut s.n, wit, &publish("t/y", 0, 0, b"to y"));
            let u = s.n.peers[i].recv();
            if pubsn(&u, "to x") == 0 || pubsn(&u, "to y") != 1 {
                w.fail("early/session", format!("{why}: x is subscribed to t/x and t/#, and receives {}", shows(&u)));
            }
            // its own will waits for 500 s and was cancelled by its return
            w.advance(40_000);
            let seen = s.n.peers[wit].recv();
            if pubsn(&seen, "will of nobody") + pubsn(&seen, "x's will") > 0 {
                w.fail("early/will", format!("{why}: the witness received {}", shows(&seen)));
            }
            health(w);
        });
    });
    // a second CONNECT
    let mut second: Vec<(String, Vec<u8>)> = vec![];
    for id in ["x", "y", "vic"] {
        for clean in [false, true] {
            second.push((format!("CONNECT({id},clean={clean})"), bytes(&with_will(keep(connect(id, clean)), "w/x", b"will of nobody", 1, 0))));
        }
    }
    second.extend(f.iter().filter(|x| x.0.starts_with("CONNECT ")).cloned());
    second.push(("CONNACK".into(), vec![0x20, 3, 0, 0]));
    explore(ctx, "second CONNECT", Cfg::all(b), &|w| {
        let (k, y, seg, at) = (w.pick(second.len() - 1), w.pick(t.len()), w.pick(3), w.pick(3));
        let mut s = Scene::new(w, None);
        let a = s.n.dial("x").unwrap();
        let first = bytes(&with_will(keep(connect("x", true)), "w/x", b"x's will", 1, 0));
        let mut got = vec![];
        let mut head = second[k].1.clone();
        match at {
            // pipelined with the first one
            0 => head = [first, head].concat(),
            _ => {
                s.n.peers[a].send_raw(&first);
                settle(w);
                if at == 2 {
                    s.n.peers[a].send(&subscribe(1, &[("t/x", 1)]));
                    settle(w);
                }
                got = s.n.peers[a].recv();
            }
        }
        got.extend(segments(w, &mut s.n, a, &head, &t[y].1, seg));
        let why = format!("{} as second CONNECT ({at}) then {} ({seg})", second[k].0, t[y].0);
        w.note(&*why);
        w.quiet(|w| {
            got.extend(s.n.peers[a].recv());
            // the first one is honoured, and its SUBSCRIBE
            let mut rest = got.clone();
            if !matches!(rest.first(), Some(P::ConnAck { sp: false, reason: 0, .. })) {
                w.fail("early/first", format!("{why}: got {}", shows(&got)));
                return;
            }
            rest.remove(0);
            if at == 2 && !rest.is_empty() {
                rest.remove(0);
            }
            let wills = s.n.peers[s.wit].recv();
            if pubsn(&wills, "x's will") != 1 || wills.len() != 1 {
                w.fail("early/will", format!("{why}: the witness received {}", shows(&wills)));
                return;
            }
            for p in &wills {
                if let P::Publish { pid: Some(p), .. } = p {
                    s.n.peers[s.wit].send(&ack(4, *p));
                }
            }
            s.judge(w, a, &rest, &why, &["y"]);
            if w.dead {
                return;
            }
            let i = s.n.dial("x'").unwrap();
            let v = ask(w, &mut s.n, i, &keep(connect("x", false)));
            let wit = s.wit;
            ask(w, &mut s.n, wit, &publish("t/x", 0, 0, b"to x"));
            ask(w, &mut s.n, wit, &publish("t/z", 0, 0, b"to z"));
            let u = s.n.peers[i].recv();
            if !matches!(&v[..], [P::ConnAck { sp: true, reason: 0, .. }]) || pubsn(&u, "to x") != (at == 2) as usize || pubsn(&u, "to z") != 0 {
                w.fail("early/session", format!("{why}: x resumes with {} and is then sent {}", shows(&v), shows(&u)));
            }
        });
    });
}

// ------------------------------------------------------------------ B17

fn prop(id: u8, v: PV) -> Prop {
    Prop { id, v }
}
/// One or more well-formed packets of every kind, with their optional parts.
fn wellformed() -> Vec<Vec<u8>> {
    let up = || prop(0x26, PV::Pair("k".into(), "v".into()));
    let mut v: Vec<P> = vec![
        keep(connect("mut", true)),
        with_will(keep_alive(connect("mut", false), 30), "m/w", b"mw", 1, 5),
        P::Connect {
            clean: true,
            keep_alive: 20,
            props: vec![prop(0x21, PV::U16(9)), prop(0x27, PV::U32(900)), prop(0x22, PV::U16(3)), prop(0x17, PV::B(1)), up()],
            client_id: "mut".into(),
            will: None,
            username: Some("u".into()),
            password: Some(b"pw".to_vec()),
        },
        P::ConnAck { sp: true, reason: 0, props: vec![prop(0x13, PV::U16(5)), prop(0x1f, PV::Str("r".into()))] },
        publish("m/q", 0, 0, b"m"),
        publish("m/q", 1, 9, b"m"),
        publish("m/q", 2, 9, b""),
        P::Publish {
            dup: true,
            qos: 1,
            retain: true,
            topic: "m/p".into(),
            pid: Some(10),
            props: vec![
                prop(1, PV::B(1)),
                prop(2, PV::U32(60)),
                prop(3, PV::Str("c".into())),
                prop(8, PV::Str("m/r".into())),
                prop(9, PV::Bin(vec![1, 2])),
                up(),
            ],
            payload: b"mm".to_vec(),
        },
        subscribe(9, &[("m/#", 1)]),
        subscribe(9, &[("m/+", 2), ("m/q", 0)]),
        P::Subscribe { pid: 9, props: vec![prop(11, PV::Var(200)), up()], filters: vec![("m".into(), 1)] },
        unsubscribe(9, &["m/#", "m/q"]),
        P::SubAck { pid: 9, props: vec![up()], reasons: vec![0, 1] },
        P::UnsubAck { pid: 9, props: vec![], reasons: vec![0] },
        P::PingReq,
        P::PingResp,
        disconnect(0),
        disconnect(4),
        P::Disconnect { reason: 0, props: vec![prop(0x11, PV::U32(7)), prop(0x1f, PV::Str("r".into()))] },
        P::Auth { reason: 0x18, props: vec![prop(0x15, PV::Str("a".into())), prop(0x16, PV::Bin(vec![1]))] },
    ];
    for k in 4..8 {
        v.push(ack(k, 9));
        v.push(P::Ack { kind: k, pid: 9, reason: 0x80, props: vec![prop(0x1f, PV::Str("r".into())), up()] });
    }
    v.iter().map(bytes).collect()
}
const AFTER: &[u8] = b"after";
fn garbage(deep: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let well = wellformed();
    for b in &well {
        v.push(b.clone());
        for n in 1..b.len() {
            v.push(b[..n].to_vec());
        }
        for i in 0..b.len() {
            let o = b[i];
            let mut vals: Vec<u8> = if deep {
                (0..=255).collect()
            } else {
                let mut x = vec![0, 1, 2, 0x7f, 0x80, 0xff, o.wrapping_add(1), o.wrapping_sub(1)];
                x.extend((0..8).map(|k| o ^ (1 << k)));
                x
            };
            vals.sort();
            vals.dedup();
            for x in vals {
                if x != o {
                    let mut m = b.clone();
                    m[i] = x;
                    v.push(m);
                }
            }
            let mut m = b.clone();
            m.remove(i);
            v.push(m);
            for x in [0, 1, 0xff] {
                let mut m = b.clone();
                m.insert(i, x);
                v.push(m);
            }
        }
        // the remaining length corrected to another size, its content cut or padded
        if b[1] < 0x70 {
            for d in [-2i32, -1, 1, 2] {
                let n = b.len() as i32 - 2 + d;
                if n < 0 {
                    continue;
                }
                let mut body = b[2..].to_vec();
                body.resize(n as usize, 0);
                v.push(frame(b[0], &body));
            }
        }
    }
    // announced sizes
    for ty in 0..=255u8 {
        for l in [&[0xff, 0xff, 0xff, 0x7f][..], &[0xff, 0xff, 0xff, 0xff], &[0x80, 0x80, 0x80, 0x80, 1], &[0x80, 0], &[0xff, 0x7f]] {
            v.push([&[ty], l].concat());
        }
    }
    // everything short
    for x in 0..=255u8 {
        v.push(vec![x]);
        for y in 0..=255u8 {
            v.push(vec![x, y]);
        }
    }
    // two faulty packets in a row, a good one and a faulty one
    for a in [3, 4, 5, 8, 14, 16, 20] {
        for b in [0, 5, 8, 13] {
            if a < well.len() {
                let mut m = well[a].clone();
                let n = m.len();
                m[n - 1] ^= 0x80;
                v.push([&m[..], &well[b][..]].concat());
                v.push([&well[b][..], &m[..]].concat());
            }
        }
    }
    v
}
struct Plain {
    n: Net,
    a: usize,
    b: usize,
    pid: u16,
    off: u16,
}
impl Plain {
    fn new(w: &mut World) -> Plain {
        w.quiet(|w| {
            let mut n = Net::start(w, Config { max_active_sessions: None, ..config() });
            let a = joined(w, &mut n, "bystander a");
            let b = join(w, &mut n, &with_will(keep(connect("bystander b", true)), "witness/will", b"b's will", 1, 0));
            ask(w, &mut n, b, &subscribe(1, &[("witness/topic", 1)]));
            ask(w, &mut n, a, &subscribe(1, &[("witness/will", 1)]));
            // a session that is offline with a message pending
            let c = joined(w, &mut n, "offline c");
            ask(w, &mut n, c, &subscribe(1, &[("witness/c", 1)]));
            ask(w, &mut n, a, &publish("witness/c", 1, 1, b"pending c"));
            let off = match &n.peers[c].recv()[..] {
                [P::Publish { pid: Some(p), .. }] => *p,
                v => {
                    if !w.dead {
                        w.fail("served/setup", format!("c receives {}", shows(v)));
                    }
                    0
                }
            };
            n.peers[c].close();
            w.run();
            Plain { n, a, b, pid: 2, off }
        })
    }
    fn served(&mut self, w: &mut World, why: &dyn Fn() -> String) {
        let (a, b) = (self.a, self.b);
        self.pid = self.pid % 60_000 + 1;
        let v = ask(w, &mut self.n, b, &P::PingReq);
        if v != [P::PingResp] {
            w.fail("served/ping", format!("{}: another client's ping got {}", why(), shows(&v)));
            return;
        }
        let v = ask(w, &mut self.n, a, &publish("witness/topic", 1, self.pid, b"probe"));
        if !matches!(&v[..], [P::Ack { kind: 4, pid, .. }] if *pid == self.pid) {
            w.fail("served/publish", format!("{}: another client's PUBLISH got {}", why(), shows(&v)));
            return;
        }
        match &self.n.peers[b].recv()[..] {
            [P::Publish { pid: Some(p), payload, qos: 1, .. }] if payload == b"probe" => self.n.peers[b].send(&ack(4, *p)),
            v => w.fail("served/delivery", format!("{}: the subscriber of another client's message received {}", why(), shows(v))),
        }
    }
    /// One offending connection from start to end.
    fn offend(&mut self, w: &mut World, s: &[u8], connected: bool, suffix: bool, cut: usize) {
        let hex = |x: &[u8]| x.iter().take(64).map(|b| format!("{b:02x}")).collect::<String>();
        let why = || format!("bytes {} {} CONNECT{}", hex(s), if connected { "after" } else { "instead of" }, if suffix { ", then a PUBLISH" } else { "" });
        let Some(x) = self.n.dial("x") else {
            w.fail("accept/refused", format!("before {}: no connection is accepted", why()));
            return;
        };
        let mut all = s.to_vec();
        if suffix {
            all.extend(bytes(&publish("witness/topic", 1, 77, AFTER)));
        }
        let mut stream = vec![];
        if connected {
            let c = bytes(&connect("x", true));
            stream.extend(&c);
            self.n.peers[x].send_raw(&c);
            w.run();
            w.run();
        }
        stream.extend(&all);
        if cut > 0 && cut < all.len() {
            self.n.peers[x].send_raw(&all[..cut]);
            w.run();
            w.run();
            self.n.peers[x].send_raw(&all[cut..]);
        } else {
            self.n.peers[x].send_raw(&all);
        }
        settle(w);
        let (good, tail) = refmqtt::parse_stream(&stream);
        let over = self.n.peers[x].closed() || self.n.peers[x].gone();
        let got = self.n.peers[x].recv();
        w.note(format!("{}: {}{}", hex(s), shows(&got), if over { ", closed" } else { "" }));
        if tail.is_err() && !over {
            w.fail("malformed/open", format!("{}: {tail:?}, but the connection is still open; it got {}", why(), shows(&got)));
            return;
        }
        if tail.is_err() && got.len() > good.len() + 1 {
            w.fail("malformed/answered", format!("{}: {tail:?}, answered {}", why(), shows(&got)));
        }
        let honest = good.iter().any(|(p, _)| matches!(p, P::Publish { payload, .. } if payload == AFTER));
        let seen = self.n.peers[self.b].recv();
        let routed = pubsn(&seen, "after");
        if seen.len() > routed || (routed > 0 && !honest) {
            w.fail("malformed/routed", format!("{}: another client received {}", why(), shows(&seen)));
            return;
        }
        for p in &seen {
            if let P::Publish { pid: Some(p), .. } = p {
                self.n.peers[self.b].send(&ack(4, *p));
            }
        }
        self.n.peers[x].half_close();
        settle(w);
        if !self.n.peers[x].closed() && !self.n.peers[x].gone() {
            w.fail("malformed/lingers", format!("{}: the connection is still open after its client has stopped sending", why()));
            return;
        }
        self.n.peers[x].close();
        self.served(w, &why);
    }
    fn finish(&mut self, w: &mut World) {
        let (a, b) = (self.a, self.b);
        let v = ask(w, &mut self.n, a, &P::PingReq);
        if v != [P::PingResp] {
            w.fail("served/witness", format!("at the end the bystander is sent {}", shows(&v)));
            return;
        }
        let i = match self.n.dial("c'") {
            Some(i) => i,
            None => {
                w.fail("accept/refused", "at the end: no connection is accepted");
                return;
            }
        };
        let v = ask(w, &mut self.n, i, &keep(connect("offline c", false)));
        let ok = matches!(&v[..], [P::ConnAck { sp: true, reason: 0, .. }, P::Publish { dup: true, pid: Some(p), payload, .. }] if *p == self.off && payload == b"pending c");
        if !ok {
            w.fail("served/offline-session", format!("another client's session resumes with {}", shows(&v)));
            return;
        }
        self.n.peers[b].close();
        settle(w);
        let v = self.n.peers[a].recv();
        if pubsn(&v, "b's will") != 1 || v.len() != 1 {
            w.fail("served/will", format!("after another client's end the witness received {}", shows(&v)));
        }
        health(w);
        garbled(w, &self.n);
    }
}

pub fn b17(ctx: &Ctx) {
    ctx.rule("every string of one or two bytes (thorough: three), every truncation and single-byte change, deletion and insertion of 28 well-formed packets, before and after CONNECT, followed by a valid PUBLISH or nothing, 128 connections to an execution, the service to the bystanders judged after every one; the same under every schedule with the stated deviations; failing accepts at every point of a history");
    let deep = ctx.thorough;
    let g = garbage(deep);
    const PER: usize = 128;
    ctx.count("strings", g.len() as u64);
    explore(ctx, "garbage", Cfg::NONE, &|w| {
        let (connected, suffix) = (w.pick(2) == 1, w.pick(2) == 1);
        let k = w.pick(g.len().div_ceil(PER));
        let mut p = Plain::new(w);
        for s in &g[k * PER..((k + 1) * PER).min(g.len())] {
            if w.dead {
                return;
            }
            p.offend(w, s, connected, suffix, 0);
        }
        if !w.dead {
            p.finish(w);
        }
    });
    if deep {
        explore(ctx, "three bytes", Cfg::NONE, &|w| {
            let connected = w.pick(2) == 1;
            let (x, y) = (w.pick(256) as u8, w.pick(256) as u8);
            let mut p = Plain::new(w);
            for z in 0..=255 {
                if w.dead {
                    return;
                }
                p.offend(w, &[x, y, z], connected, false, 0);
            }
            if !w.dead {
                p.finish(w);
            }
        });
    }
    // every way to cut some of them, with a pause between
    let few: Vec<&Vec<u8>> = g.iter().filter(|s| s.len() > 2 && s.len() < 40).step_by(if deep { 17 } else { 41 }).collect();
    explore(ctx, "garbage in two parts", Cfg::NONE, &|w| {
        let connected = w.pick(2) == 1;
        let k = w.pick(few.len());
        let mut p = Plain::new(w);
        for cut in 1..few[k].len() {
            if w.dead {
                return;
            }
            p.offend(w, few[k], connected, true, cut);
        }
        if !w.dead {
            p.finish(w);
        }
    });
    // while the others are busy
    let some: Vec<&Vec<u8>> = g.iter().step_by(if deep { 997 } else { 2003 }).collect();
    explore(ctx, "garbage meanwhile", Cfg::all(if deep { 2 } else { 1 }), &|w| {
        let connected = w.pick(2) == 1;
        let s = some[w.pick(some.len())];
        let mut p = Plain::new(w);
        let (a, b) = (p.a, p.b);
        let x = if connected { joined(w, &mut p.n, "x") } else { p.n.dial("x").unwrap() };
        p.n.peers[a].send(&publish("witness/topic", 1, 300, b"m1"));
        p.n.peers[x].send_raw(s);
        w.run_or_stop();
        p.n.peers[a].send(&publish("witness/topic", 1, 301, b"m2"));
        p.n.peers[b].send(&P::PingReq);
        w.run_or_stop();
        p.n.peers[x].close();
        w.quiet(|w| {
            settle(w);
            let v = p.n.peers[b].recv();
            if pubs(&v) != ["m1", "m2"] || v.iter().filter(|p| **p == P::PingResp).count() != 1 {
                w.fail("served/meanwhile", format!("bytes {s:02x?} meanwhile: another client received {}", shows(&v)));
            }
            for q in &v {
                if let P::Publish { pid: Some(q), .. } = q {
                    p.n.peers[b].send(&ack(4, *q));
                }
            }
            let v = p.n.peers[a].recv();
            if v.len() != 2 {
                w.fail("served/meanwhile", format!("bytes {s:02x?} meanwhile: the publisher received {}", shows(&v)));
            }
            if !w.dead {
                p.finish(w);
            }
        });
    });
    // accepting goes on whatever accept reports
    explore(ctx, "failing accepts", Cfg::all(if deep { 2 } else { 1 }), &|w| {
        let mut p = Plain::new(w);
        for round in 0..3 {
            let k = w.pick(4);
            if k > 0 {
                tokio::sim::net::fail_accepts(PORT, k);
                if w.pick(2) == 1 {
                    w.run_or_stop();
                }
            }
            let Some(x) = p.n.dial("x") else {
                w.fail("accept/refused", format!("round {round}: no connection is accepted"));
                return;
            };
            p.n.peers[x].send(&connect("x", true));
            w.quiet(|w| {
                settle(w);
                w.advance(2_000);
                let v = p.n.peers[x].recv();
                if !matches!(&v[..], [P::ConnAck { reason: 0, .. }]) {
                    w.fail("accept/failed", format!("round {round}: after {k} failed accepts a new client's CONNECT got {}", shows(&v)));
                    return;
                }
                p.served(w, &|| format!("round {round} of failed accepts"));
            });
            if w.dead {
                return;
            }
        }
        w.quiet(|w| p.finish(w));
    });
}
