//! Broker checks whose histories are compared with the sequential reference model.
use crate::explore::*;
use crate::model::*;
use crate::net::*;
use mcbase::Ctx;
use refmqtt::{P, PV, Prop};
use std::time::Duration;

pub const ALWAYS: &[&str] = &["panic", "garbled", "accept", "harness-panic", "panic-on-drop"];

pub fn con(slot: usize, id: &'static str, clean: bool) -> Op {
    Op::Connect { slot, id, clean, will: None, ka: 60 }
}
pub fn conw(slot: usize, id: &'static str, clean: bool, topic: &'static str, qos: u8, delay: u32) -> Op {
    Op::Connect { slot, id, clean, ka: 60, will: Some(Will { topic, qos, delay, tag: format!("w{id}{delay}") }) }
}
pub fn sub(slot: usize, f: &[(&'static str, u8)]) -> Op {
    Op::Sub { slot, f: f.to_vec() }
}
pub fn unsub(slot: usize, f: &[&'static str]) -> Op {
    Op::Unsub { slot, f: f.to_vec() }
}
pub fn pb(slot: usize, topic: &'static str, qos: u8) -> Op {
    Op::Pub { slot, topic, qos, dup: false }
}

pub struct Hist {
    pub name: &'static str,
    pub slots: usize,
    pub cfg: vaux_broker::Config,
    pub setup: Vec<Op>,
    pub alphabet: Vec<Op>,
    pub depth: usize,
    /// performed after every history
    pub probe: Vec<Op>,
    pub x: Cfg,
}
impl Hist {
    pub fn new(name: &'static str, slots: usize) -> Hist {
        Hist { name, slots, cfg: config(), setup: vec![], alphabet: vec![], depth: 3, probe: vec![], x: Cfg::NONE }
    }
}
/// Every sequence of `depth` enabled operations, each run until the broker is idle, every observable
/// compared with the model; then the probe.
pub fn hist(ctx: &Ctx, accept: &'static [&'static str], h: &Hist) {
    explore(ctx, h.name, h.x, &|w| {
        w.accept = Some(accept);
        let mut s = w.quiet(|w| {
            let mut s = Sys::new(w, h.cfg.clone(), h.slots);
            for o in &h.setup {
                s.step(w, o);
            }
            s
        });
        for _ in 0..h.depth {
            if w.dead {
                return;
            }
            let en: Vec<&Op> = h.alphabet.iter().filter(|o| s.enabled(o)).collect();
            if en.is_empty() {
                break;
            }
            let k = w.pick(en.len());
            s.step(w, en[k]);
        }
        w.quiet(|w| {
            for o in &h.probe {
                if w.dead {
                    return;
                }
                if s.enabled(o) {
                    s.step(w, o)
                }
            }
        });
    });
}

// ------------------------------------------------------------------ B01

fn words(alpha: &[&'static str], n: usize) -> Vec<Vec<&'static str>> {
    let mut out = vec![];
    let mut lv: Vec<Vec<&'static str>> = vec![vec![]];
    for _ in 0..n {
        let mut nx = vec![];
        for q in &lv {
            for a in alpha {
                let mut x = q.clone();
                x.push(a);
                nx.push(x)
            }
        }
        out.extend(nx.clone());
        lv = nx;
    }
    out
}
fn leak(v: Vec<String>) -> Vec<&'static str> {
    v.into_iter().map(|s| &*Box::leak(s.into_boxed_str())).collect()
}
fn filters(n: usize) -> Vec<&'static str> {
    let mut v: Vec<String> = vec!["#".into()];
    for q in words(&["a", "b", "", "+"], n) {
        let s = q.join("/");
        if !s.is_empty() {
            v.push(s.clone());
            if q.len() < n || n > 3 {
                v.push(format!("{s}/#"));
            }
        } else {
            v.push("/#".into());
        }
    }
    for s in ["$s", "$s/#", "$s/a", "$s/+", "+/$s", "a/$s", "a/$s/#", "$", "$/#", "é", "a b/c", "A", "A/b", "ab", "a/ab", " ", "a ", " a", "a/ ", " /a", "+/ ", " /#", "aa", "a/aa", "é/é", "+a"] {
        v.push(s.into())
    }
    v.sort();
    v.dedup();
    v.retain(|f| refmqtt::filter_valid(f));
    leak(v)
}
fn topics(n: usize) -> Vec<&'static str> {
    let mut v: Vec<String> = vec![];
    for q in words(&["a", "b", ""], n) {
        let s = q.join("/");
        if !s.is_empty() {
            v.push(s)
        }
    }
    for s in ["$s", "$s/a", "$s/a/b", "$s/", "$", "a/$s", "a/$s/b", "é", "a b/c", "A", "A/b", "ab", "a/ab", "a$", "$/a", "c/c/c/c/c", " ", "a ", " a", "a/ ", " /a", "aa", "a/aa", "é/é", "É", "a\u{301}"] {
        v.push(s.into())
    }
    v.sort();
    v.dedup();
    leak(v)
}
pub fn b01(ctx: &Ctx) {
    ctx.rule("every valid filter over {a,b,empty,+,#} and $-variants against every topic, one subscriber; every ordered pair of filters on one and on two subscribers with one of them removed again, against every topic; the real broker compared with the reference matching rules");
    let acc: &[&str] = &["deliver", "content", "panic", "garbled", "accept", "harness-panic"];
    let deep_b01 = ctx.thorough;
    let (nf, nt) = if ctx.thorough { (5, 6) } else { (4, 5) };
    let fs = filters(nf);
    let ts = topics(nt);
    ctx.count("filters", fs.len() as u64);
    ctx.count("topics", ts.len() as u64);
    explore(ctx, "single", Cfg::NONE, &|w| {
        w.accept = Some(acc);
        let f = fs[w.pick(fs.len())];
        let mut s = Sys::new(w, config(), 2);
        for o in [con(0, "s", true), con(1, "p", true), sub(0, &[(f, 1)])] {
            s.step(w, &o)
        }
        for t in &ts {
            if w.dead {
                return;
            }
            s.step(w, &pb(1, t, 0));
        }
    });
    ctx.count("filter-topic pairs", (fs.len() * ts.len()) as u64);
    // many levels, long levels
    explore(ctx, "deep", Cfg::NONE, &|w| {
        w.accept = Some(acc);
        let n = [3usize, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 16_000][w.pick(21)];
        let kind = w.pick(8);
        let lv = |k: usize, c: &str| -> Vec<String> { (0..k).map(|i| if i % 3 == 2 { String::new() } else { format!("{c}{}", i % 2) }).collect() };
        let t = lv(n, "l").join("/");
        let mut f = lv(n, "l");
        let mut hit = true;
        match kind {
            0 => {}
            1 => f[n - 1] = "+".into(),
            2 => f[n / 2] = "+".into(),
            3 => f[n - 1] = "#".into(),
            4 => f.push("#".into()),
            5 => {
                f.truncate(n / 2);
                f.push("#".into())
            }
            6 => {
                f[n - 1] = "other".into();
                hit = false
            }
            _ => {
                f.truncate(n - 1);
                hit = false
            }
        }
        let f = f.join("/");
        assert!(refmqtt::filter_valid(&f) && refmqtt::topic_matches(&f, &t) == hit);
        let (f, t): (&'static str, &'static str) = (Box::leak(f.into_boxed_str()), Box::leak(t.into_boxed_str()));
        let mut s = Sys::new(w, config(), 2);
        let above: &'static str = Box::leak(lv(n - 1, "l").join("/").into_boxed_str());
        let below: &'static str = Box::leak(format!("{t}/x").into_boxed_str());
        for o in [con(0, "s", true), con(1, "p", true), sub(0, &[(f, 1)]), pb(1, t, 1), pb(1, above, 0), pb(1, below, 0), unsub(0, &[f]), pb(1, t, 0)] {
            if !w.dead && !matches!(&o, Op::Pub { topic: "", .. }) {
                s.step(w, &o)
            }
        }
    });
    explore(ctx, "long levels", Cfg::NONE, &|w| {
        w.accept = Some(acc);
        let n = [2usize, 15, 16, 22, 23, 24, 31, 32, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 4095, 4096, 4097, 32_000][w.pick(22)];
        let c = ["x", "é", "日"][w.pick(3)];
        let n = n.min(65_000 / c.len() / 2);
        let at = w.pick(3);
        let mk = |s: String| -> &'static str { Box::leak(match at { 0 => s, 1 => format!("a/{s}"), _ => format!("{s}/b") }.into_boxed_str()) };
        let whole = mk(c.repeat(n));
        let others = [mk(c.repeat(n) + "y"), mk(c.repeat(n - 1)), mk(c.repeat(n - 1) + "y"), mk("y".to_string() + &c.repeat(n - 1)), mk(c.repeat(n) + c)];
        let mut s = Sys::new(w, config(), 3);
        let mut ops = vec![con(0, "s", true), con(1, "p", true), con(2, "t", true), sub(0, &[(whole, 1)]), sub(2, &[(others[0], 0), (others[2], 0)]), pb(1, whole, 1)];
        ops.extend(others.iter().map(|o| pb(1, o, 1)));
        ops.extend([unsub(2, &[others[0]]), pb(1, whole, 0), pb(1, others[0], 0), pb(1, others[2], 0)]);
        for o in &ops {
            if !w.dead {
                s.step(w, o)
            }
        }
    });
    // very many filters, very many subscribers
    explore(ctx, "many filters", Cfg::NONE, &|w| {
        let shape = w.pick(4);
        let many = if deep_b01 { 300_000usize } else { 70_000 };
        let name = |k: usize| match shape {
            0 => format!("f{k}"),
            1 => format!("f{}/g{}", k % 300, k / 300),
            2 => format!("a/{k}/+"),
            _ => format!("{k}/#"),
        };
        let topic = |k: usize| match shape {
            0 | 1 => name(k),
            2 => format!("a/{k}/z"),
            _ => format!("{k}/y/z"),
        };
        let mut n = Net::start(w, config());
        for id in ["s", "p", "t"] {
            let i = n.dial(id).unwrap();
            n.peers[i].send(&connect(id, true));
            w.run();
        }
        // one client's lie between the other's
        for lo in (0..many).step_by(1000) {
            for (i, r) in [(0, 0), (2, 1)] {
                let f = (lo..lo + 1000).filter(|k| k % 2 == r).map(|k| (name(k), 0)).collect();
                n.peers[i].send(&P::Subscribe { pid: 1, props: vec![], filters: f });
                w.run();
                n.peers[i].take_raw();
            }
        }
        for k in (0..many).filter(|k| *k < 2000 || *k > many - 2000 || k % 13 == 0 || (65_000..66_200).contains(k)) {
            n.peers[1].send(&publish(&topic(k), 0, 0, format!("{k}").as_bytes()));
            w.run();
            let g = [n.peers[0].recv(), n.peers[2].recv()];
            let ok = g[k % 2].len() == 1 && g[1 - k % 2].is_empty() && matches!(&g[k % 2][0], P::Publish { payload, .. } if *payload == format!("{k}").as_bytes());
            if !ok {
                w.fail("deliver/missing", format!("filter {k} of {many} ({}): message for it is delivered as {} to its client and {} to the other", name(k), shows(&g[k % 2]), shows(&g[1 - k % 2])));
                return;
            }
        }
    });
    explore(ctx, "many subscribers", Cfg::NONE, &|w| {
        let m = [31usize, 33, 64, 65, 127, 129, 255, 257, 400, 1100][w.pick(10)];
        let shape = w.pick(3);
        let mut n = Net::start(w, config());
        for k in 0..m {
            let id = format!("c{k}");
            let i = n.dial(&id).unwrap();
            n.peers[i].send(&connect(&id, true));
            n.peers[i].send(&subscribe(1, &[(["t", ["t", "+", "#"][k % 3], ["t/#", "t", "+/#", "$t"][k % 4]][shape], (k % 2) as u8)]));
            w.run();
            n.peers[i].recv();
        }
        for q in 0..2 {
            n.peers[m / 2].send(&publish("t", q, 9, b"hello"));
            w.run();
            for k in 0..m {
                let want = if shape == 2 && k % 4 == 3 { 0 } else { 1 };
                let c = n.peers[k].recv().iter().filter(|p| matches!(p, P::Publish { payload, qos, .. } if payload == b"hello" && *qos == q.min((k % 2) as u8))).count();
                if c != want {
                    w.fail("deliver/missing", format!("subscriber {k} of {m} received {c} copies"));
                    return;
                }
            }
        }
    });
    let mut fs = filters(if ctx.thorough { 4 } else { 3 });
    fs.retain(|f| !f.contains('b') || f.contains("a/b"));
    let deep = ctx.thorough;
    fs.retain(|f| f.split('/').count() < if deep { 5 } else { 4 });
    let mut ts = topics(3);
    ts.retain(|t| t.split('/').count() < 3 || t.starts_with('a') || t.starts_with('/'));
    ctx.count("filter pairs", (fs.len() * fs.len()) as u64);
    explore(ctx, "pairs", Cfg::NONE, &|w| {
        w.accept = Some(acc);
        let f = fs[w.pick(fs.len())];
        let g = fs[w.pick(fs.len())];
        let mode = w.pick(4);
        let mut s = Sys::new(w, config(), 3);
        let second = if mode % 2 == 0 { 0 } else { 2 };
        for o in [con(0, "s", true), con(1, "p", true), con(2, "t", true), sub(0, &[(f, 1)]), sub(second, &[(g, 0)])] {
            s.step(w, &o)
        }
        if mode >= 2 {
            s.step(w, &unsub(0, &[f]));
        }
        for t in &ts {
            if w.dead {
                return;
            }
            s.step(w, &pb(1, t, 1));
        }
    });
}

// ------------------------------------------------------------------ B02

pub fn b02(ctx: &Ctx) {
    ctx.rule("every history of subscribe, re-subscribe, unsubscribe (single and multi-filter) and reconnect requests of two clients to the stated depth, then every topic published; compared with the reference model");
    let acc: &[&str] = &["deliver", "content", "codes", "panic", "garbled", "accept", "harness-panic"];
    let setup = vec![con(0, "a", true), con(1, "ab", true), con(2, "p", true)];
    let probe: Vec<Op> = ["x/y", "x/z", "x", "w"].into_iter().map(|t| pb(2, t, 1)).collect();
    let mut al = vec![];
    for s in 0..2 {
        for f in ["x/y", "x/+", "#"] {
            al.push(sub(s, &[(f, 1)]));
            al.push(unsub(s, &[f]));
        }
    }
    al.push(sub(0, &[("x/y", 0)]));
    al.push(sub(0, &[("#", 0)]));
    hist(ctx, acc, &Hist {
        setup: setup.clone(),
        alphabet: al,
        depth: if ctx.thorough { 5 } else { 4 },
        probe: probe.clone(),
        ..Hist::new("two clients, three filters", 3)
    });
    // several filters in one request, neighbours in the tree
    let mut al = vec![
        sub(0, &[("x/y", 0), ("x/#", 1)]),
        sub(0, &[("x/y", 1), ("x/y", 0)]),
        sub(0, &[("x", 1)]),
        sub(1, &[("x/#", 1), ("x", 0), ("x/+", 1)]),
        unsub(0, &["x/#", "x/y"]),
        unsub(0, &["x", "x/+", "x/#"]),
        unsub(1, &["x/y", "x/#"]),
        unsub(1, &["x", "nothing/at/all"]),
        unsub(0, &["x/y", "x/y"]),
    ];
    hist(ctx, acc, &Hist {
        setup: setup.clone(),
        alphabet: al.clone(),
        depth: if ctx.thorough { 5 } else { 4 },
        probe: probe.clone(),
        ..Hist::new("several filters per request", 3)
    });
    // options of one filter, own messages among the deliveries
    hist(ctx, acc, &Hist {
        setup: setup.clone(),
        alphabet: vec![
            sub(0, &[("x/y", 1)]),
            sub(0, &[("x/y", 0)]),
            sub(0, &[("x/y", 2)]),
            sub(0, &[("x/y", 1 | 4)]),
            sub(0, &[("x/y", 4)]),
            sub(0, &[("x/y", 2 | 8), ("x/+", 1 | 0x20)]),
            sub(1, &[("x/y", 1 | 4)]),
            sub(1, &[("x/y", 1)]),
            unsub(0, &["x/y"]),
            unsub(1, &["x/y"]),
            pb(0, "x/y", 1),
        ],
        depth: if ctx.thorough { 5 } else { 4 },
        probe: vec![pb(0, "x/y", 1), pb(1, "x/y", 0), pb(2, "x/y", 1)],
        ..Hist::new("options of one filter", 3)
    });
    // with reconnects
    al.truncate(5);
    al.push(Op::Drop { slot: 0 });
    al.push(Op::Bye { slot: 0, reason: 0 });
    al.push(con(0, "a", false));
    al.push(con(0, "a", true));
    al.push(Op::Drop { slot: 1 });
    al.push(con(1, "ab", false));
    al.push(con(1, "ab", true));
    hist(ctx, acc, &Hist {
        setup,
        alphabet: al,
        depth: if ctx.thorough { 6 } else { 5 },
        probe,
        ..Hist::new("with reconnects", 3)
    });
    similar(ctx);
}

fn similar_ids() -> Vec<(String, String)> {
    let l = |n: usize, c: char| format!("{}{c}", "i".repeat(n));
    [("a", "A"), ("Client", "client"), ("a", " a"), ("a", "a "), ("a", "aa"), ("ab", "a"), ("a", "a/"), ("a", "a#"), ("#", "+"), ("1", "01"), ("\u{e9}", "e\u{301}"), ("ss", "\u{df}"), ("K", "\u{212a}"), ("\u{e4}x", "\u{f6}x"), ("a-b", "a_b"), ("a\tb", "a b"), ("x.y", "x,y"), ("null", "NULL")]
        .into_iter()
        .map(|(a, b)| (a.to_string(), b.to_string()))
        .chain([7usize, 8, 15, 16, 22, 23, 31, 32, 63, 64, 127, 128, 255, 256, 1023, 4095, 4096, 65_534].into_iter().map(|n| (l(n, 'x'), l(n, 'y'))))
        .chain([22usize, 23, 64, 255].into_iter().map(|n| (format!("x{}", "i".repeat(n)), format!("y{}", "i".repeat(n)))))
        .collect()
}
/// Identifiers that are easily taken for one another belong to different clients.
pub fn similar(ctx: &Ctx) {
    let ids = similar_ids();
    explore(ctx, "similar identifiers", Cfg::NONE, &|w| {
        let (a, b) = &ids[w.pick(ids.len())];
        let turn = w.pick(2) == 1;
        let (a, b) = if turn { (b, a) } else { (a, b) };
        let clean = w.pick(2) == 1;
        let away = w.pick(2) == 1;
        let what = format!("{a:.40?} and {b:.40?} ({} and {} bytes), clean {clean}", a.len(), b.len());
        let mut n = Net::start(w, config());
        let go = |w: &mut World, n: &mut Net, i: usize, p: P| -> Vec<P> {
            n.peers[i].send(&p);
            crate::sched::settle(w);
            n.peers[i].recv()
        };
        let code = |v: &[P]| if let [P::ConnAck { reason, sp, .. }, ..] = v { Some((*reason, *sp)) } else { None };
        let x = n.dial("a").unwrap();
        let v = go(w, &mut n, x, connect(a, true));
        if code(&v) != Some((0, false)) {
            w.fail("connack/similar", format!("{what}: the first gets {}", shows(&v)));
            return;
        }
        go(w, &mut n, x, subscribe(1, &[("t", 1), ("u", 1)]));
        if away {
            n.peers[x].close();
            crate::sched::settle(w);
        }
        let y = n.dial("b").unwrap();
        let v = go(w, &mut n, y, connect(b, clean));
        if code(&v) != Some((0, false)) {
            w.fail("connack/similar", format!("{what}: the second gets {}", shows(&v)));
            return;
        }
        let v = go(w, &mut n, y, publish("t", 0, 0, b"0"));
        if !v.is_empty() {
            w.fail("deliver/similar", format!("{what}: without a subscription the second gets {}", shows(&v)));
            return;
        }
        go(w, &mut n, y, subscribe(2, &[("t", 0)]));
        go(w, &mut n, y, unsubscribe(3, &["u"]));
        let x = if away {
            let x = n.dial("a").unwrap();
            let v = go(w, &mut n, x, connect(a, false));
            if code(&v) != Some((0, true)) {
                w.fail("connack/similar", format!("{what}: the first comes back and gets {}", shows(&v)));
                return;
            }
            x
        } else {
            if n.peers[x].closed() {
                w.fail("takeover/similar", format!("{what}: the first is closed: {}", shows(&n.peers[x].recv())));
                return;
            }
            x
        };
        n.peers[x].recv();
        for (t, want) in [("t", [(1u8, true), (0, true)]), ("u", [(1, true), (0, false)])] {
            let p = publish(t, 1, 9, b"m");
            let own = go(w, &mut n, y, p);
            let other = n.peers[x].recv();
            for (who, v, (q, some)) in [("first", &other, want[0]), ("second", &own, want[1])] {
                let g: Vec<u8> = v.iter().filter_map(|p| if let P::Publish { qos, .. } = p { Some(*qos) } else { None }).collect();
                if g != if some { vec![q] } else { vec![] } {
                    w.fail("deliver/similar", format!("{what}: of {t} the {who} gets {}", shows(v)));
                    return;
                }
            }
        }
        // the one leaves for good, the other stays
        go(w, &mut n, y, disconnect(0));
        let y = n.dial("b2").unwrap();
        go(w, &mut n, y, connect(b, true));
        let other = go(w, &mut n, x, P::PingReq);
        go(w, &mut n, y, publish("t", 1, 10, b"m"));
        let v = n.peers[x].recv();
        if !matches!(&other[..], [P::PingResp]) || !matches!(&v[..], [P::Publish { qos: 1, .. }]) {
            w.fail("deliver/similar", format!("{what}: when the second has left the first gets {} and {}", shows(&other), shows(&v)));
        }
    });
}

// ------------------------------------------------------------------ B03

pub fn b03(ctx: &Ctx) {
    ctx.rule("every sequence of up to n requests on one connection sent back to back, every cut of the byte stream into two (quick) and every schedule deviation; answers compared in order, identifier and code count");
    let reqs: Vec<(&str, P)> = vec![
        ("ping", P::PingReq),
        ("sub1", subscribe(11, &[("x", 1)])),
        ("sub3", subscribe(12, &[("x/#", 0), ("y", 2), ("z/+", 1)])),
        ("unsub", unsubscribe(13, &["x", "q", "y"])),
        ("pub1", publish("x", 1, 14, b"one")),
        ("pub1b", publish("y", 1, 65535, b"two")),
        ("pub0", publish("x", 0, 0, b"zero")),
        ("dup", P::Publish { dup: true, qos: 1, retain: false, topic: "n".into(), pid: Some(16), props: vec![], payload: vec![] }),
    ];
    let n = if ctx.thorough { 4 } else { 3 };
    let judge = |w: &mut World, sent: &[&P], got: Vec<P>, why: &str| {
        let mut ans: Vec<&P> = got.iter().filter(|p| !matches!(p, P::Publish { .. })).collect();
        for s in sent {
            let want = match s {
                P::Publish { qos: 0, .. } => continue,
                _ if ans.is_empty() => {
                    w.fail("answer/missing", format!("{why}: no answer to {}; got {}", show(s), shows(&got)));
                    return;
                }
                _ => ans.remove(0),
            };
            let ok = match (s, want) {
                (P::PingReq, P::PingResp) => true,
                (P::Subscribe { pid, filters, .. }, P::SubAck { pid: q, reasons, .. }) => {
                    pid == q && reasons.len() == filters.len() && reasons.iter().zip(filters).all(|(r, f)| *r >= 0x80 || *r <= f.1 & 3)
                }
                (P::Unsubscribe { pid, filters, .. }, P::UnsubAck { pid: q, reasons, .. }) => {
                    pid == q && reasons.len() == filters.len()
                }
                (P::Publish { pid, .. }, P::Ack { kind: 4, pid: q, reason, .. }) => *pid == Some(*q) && *reason < 0x80,
                _ => false,
            };
            if !ok {
                w.fail("answer/wrong", format!("{why}: {} answered by {}; all: {}", show(s), show(want), shows(&got)));
                return;
            }
        }
        if !ans.is_empty() {
            w.fail("answer/unasked", format!("{why}: {}", shows(&got)));
        }
    };
    for len in 1..=n {
        for mode in 0..2 {
            let x = if mode == 0 { Cfg::NONE } else { Cfg::all(if ctx.thorough && len < 3 { 2 } else { 1 }) };
            if mode == 1 && len > if ctx.thorough { 3 } else { 2 } {
                continue;
            }
            explore(ctx, &format!("{len} requests back to back{}", if mode == 1 { ", schedules" } else { "" }), x, &|w| {
                let (mut n, a) = w.quiet(|w| {
                    let mut n = Net::start(w, config());
                    let a = n.dial("a").unwrap();
                    n.peers[a].send(&connect("a", true));
                    w.run();
                    n.peers[a].recv();
                    (n, a)
                });
                let mut sent = vec![];
                let mut bytes = vec![];
                for _ in 0..len {
                    let r = &reqs[w.pick(reqs.len())];
                    sent.push(&r.1);
                    bytes.extend(refmqtt::encode(&r.1, refmqtt::Form::Long));
                }
                if mode == 0 {
                    // all at once, or cut in two anywhere
                    let c = w.pick(bytes.len());
                    n.peers[a].send_raw(&bytes[..c]);
                    w.run();
                    n.peers[a].send_raw(&bytes[c..]);
                } else {
                    for s in &sent {
                        n.peers[a].send(s);
                        w.run_or_stop();
                    }
                }
                w.run();
                w.run();
                let got = n.peers[a].recv();
                w.note(format!("{} => {}", sent.iter().map(|s| show(s)).collect::<Vec<_>>().join(" "), shows(&got)));
                if n.peers[a].closed() {
                    w.fail("answer/closed", "the connection was closed");
                }
                judge(w, &sent, got, "back to back");
            });
        }
    }
    // every identifier a request can have
    explore(ctx, "every packet identifier", Cfg::NONE, &|w| {
        let kind = w.pick(3);
        let mut n = Net::start(w, config());
        let a = n.dial("a").unwrap();
        n.peers[a].send(&connect("a", true));
        w.run();
        n.peers[a].recv();
        for pid in 1..=65_535u16 {
            n.peers[a].send(&match kind {
                0 => subscribe(pid, &[("x", 1)]),
                1 => unsubscribe(pid, &["x"]),
                _ => publish("y", 1, pid, b"m"),
            });
            w.run();
            let v = n.peers[a].recv();
            let ok = match (&v[..], kind) {
                ([P::SubAck { pid: p, reasons, .. }], 0) => *p == pid && reasons.len() == 1,
                ([P::UnsubAck { pid: p, reasons, .. }], 1) => *p == pid && reasons.len() == 1,
                ([P::Ack { kind: 4, pid: p, reason, .. }], 2) => *p == pid && *reason < 0x80,
                _ => false,
            };
            if !ok {
                w.fail("answer/wrong", format!("request {kind} with identifier {pid} answered by {}", shows(&v)));
                return;
            }
        }
    });
    // requests of every size
    explore(ctx, "sizes of requests", Cfg::NONE, &|w| {
        let len = [0usize, 1, 100, 120, 125, 126, 127, 128, 129, 4000, 4090, 4096, 4100, 8192, 16_380, 16_384, 32_767, 32_768, 65_000, 65_535][w.pick(20)];
        let kind = w.pick(6);
        let big = "x".repeat(len);
        let mut n = Net::start(w, config());
        let a = n.dial("a").unwrap();
        n.peers[a].send(&connect("a", true));
        w.run();
        n.peers[a].recv();
        for pid in [1u16, 256, 65_535] {
            let up = vec![Prop { id: 0x26, v: PV::Pair(big.clone(), "v".into()) }];
            n.peers[a].send(&match kind {
                0 => publish(if len == 0 { "t" } else { &big }, 1, pid, b"m"),
                1 => publish("t", 1, pid, big.repeat(3).as_bytes()),
                2 => subscribe(pid, &[(if len == 0 { "t" } else { &big }, 1), ("t", 1)]),
                3 => P::Subscribe { pid, props: up, filters: vec![("a".into(), 0), ("b".into(), 2)] },
                4 => unsubscribe(pid, &["t", if len == 0 { "u" } else { &big }]),
                _ => P::Publish { dup: false, qos: 1, retain: false, topic: "u".into(), pid: Some(pid), props: up, payload: vec![] },
            });
            n.peers[a].send(&P::PingReq);
            w.run();
            w.run();
            let v: Vec<P> = n.peers[a].recv().into_iter().filter(|p| !matches!(p, P::Publish { .. })).collect();
            let ok = match (&v[..], kind) {
                ([P::SubAck { pid: p, reasons, .. }, P::PingResp], 2 | 3) => *p == pid && reasons.len() == 2,
                ([P::UnsubAck { pid: p, reasons, .. }, P::PingResp], 4) => *p == pid && reasons.len() == 2,
                ([P::Ack { kind: 4, pid: p, reason, .. }, P::PingResp], 0 | 1 | 5) => *p == pid && *reason < 0x80,
                _ => false,
            };
            if !ok {
                w.fail("answer/wrong", format!("request {kind} of size {len}, then PINGREQ, answered by {}", shows(&v)));
                return;
            }
        }
    });
    // many filters in one request: a code for each, in their order
    explore(ctx, "many filters", Cfg::NONE, &|w| {
        let n = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 33, 63, 64, 65, 120, 127, 128, 129, 255, 256, 257, 1000, 3000, 17_000][w.pick(27)];
        let pat = w.pick(6);
        let same = w.pick(2) == 1;
        let q = |k: usize| [k % 3, (k + 1) % 3, (k + 2) % 3, 2 - k.min(2), (k * k / 2) % 3, if k + 1 == n { 2 } else { 0 }][pat] as u8;
        let name = |k: usize| format!("f/{}", if same { k / 2 } else { k });
        let mut net = Net::start(w, config());
        let a = net.dial("a").unwrap();
        net.peers[a].send(&connect("a", true));
        w.run();
        net.peers[a].recv();
        let fs: Vec<(String, u8)> = (0..n).map(|k| (name(k), q(k))).collect();
        net.peers[a].send(&P::Subscribe { pid: 77, props: vec![], filters: fs.clone() });
        w.run();
        w.run();
        match &net.peers[a].recv()[..] {
            [P::SubAck { pid: 77, reasons, .. }] if reasons.len() == n => {
                if let Some(k) = (0..n).find(|k| reasons[*k] < 0x80 && reasons[*k] > fs[*k].1) {
                    w.fail("answer/order", format!("filter {k} of {n} asked for QoS {}, its code is {}", fs[k].1, reasons[k]));
                }
            }
            x => {
                w.fail("answer/count", format!("{n} filters answered by {}", shows(x).chars().take(200).collect::<String>()));
                return;
            }
        }
        // every third of them again, and names never subscribed between
        let us: Vec<String> = (0..n).map(|k| if k % 3 == pat % 3 { name(k) } else { format!("none/{k}") }).collect();
        net.peers[a].send(&P::Unsubscribe { pid: 78, props: vec![], filters: us.clone() });
        w.run();
        w.run();
        match &net.peers[a].recv()[..] {
            [P::UnsubAck { pid: 78, reasons, .. }] if reasons.len() == n => {
                let mut seen = std::collections::HashSet::new();
                for k in 0..n {
                    let had = k % 3 == pat % 3 && seen.insert(us[k].clone());
                    if reasons[k] != if had { 0 } else { 0x11 } {
                        w.fail("answer/order", format!("unsubscribing filter {k} ({}) of {n}: code {:#x}, subscribed: {had}", us[k], reasons[k]));
                        break;
                    }
                }
            }
            x => w.fail("answer/count", format!("{n} filters answered by {}", shows(x).chars().take(200).collect::<String>())),
        }
        net.peers[a].send(&P::PingReq);
        w.run();
        let v = net.peers[a].recv();
        if v != [P::PingResp] {
            w.fail("answer/wrong", format!("PINGREQ after {n} filters answered by {}", shows(&v)));
        }
    });
    // two connections at once, each other's subscribers
    explore(ctx, "two connections", Cfg::all(if ctx.thorough { 2 } else { 1 }), &|w| {
        let mut n = w.quiet(|w| {
            let mut n = Net::start(w, config());
            for id in ["a", "b"] {
                let i = n.dial(id).unwrap();
                n.peers[i].send(&connect(id, true));
                w.run();
                n.peers[i].recv();
            }
            n
        });
        let mut sent: Vec<Vec<&P>> = vec![vec![], vec![]];
        let plans = [[1usize, 4, 0], [2, 5, 3], [4, 3, 0]];
        let (pa, pb) = (&plans[w.pick(3)], &plans[w.pick(3)]);
        for k in 0..3 {
            for (i, p) in [pa, pb].iter().enumerate() {
                let r = &reqs[p[k]].1;
                sent[i].push(r);
                n.peers[i].send(r);
                w.run_or_stop();
            }
        }
        w.run();
        w.run();
        for i in 0..2 {
            let got = n.peers[i].recv();
            w.note(format!("{i}: {}", shows(&got)));
            judge(w, &sent[i], got, "two connections");
        }
    });
}

// ------------------------------------------------------------------ B04

/// Message properties at the ends of their ranges.
pub fn extreme_props() -> Vec<Prop> {
    let long = "é".repeat(32_767);
    vec![
        Prop { id: 1, v: PV::B(0) },
        Prop { id: 1, v: PV::B(1) },
        Prop { id: 2, v: PV::U32(0) },
        Prop { id: 2, v: PV::U32(1) },
        Prop { id: 2, v: PV::U32(65_536) },
        Prop { id: 2, v: PV::U32(u32::MAX) },
        Prop { id: 3, v: PV::Str("".into()) },
        Prop { id: 3, v: PV::Str(long.clone()) },
        Prop { id: 8, v: PV::Str("r".into()) },
        Prop { id: 8, v: PV::Str("/$SYS//ü/".into()) },
        Prop { id: 9, v: PV::Bin(vec![]) },
        Prop { id: 9, v: PV::Bin(vec![0; 65_535]) },
        Prop { id: 0x26, v: PV::Pair("".into(), "".into()) },
        Prop { id: 0x26, v: PV::Pair("k".into(), "".into()) },
        Prop { id: 0x26, v: PV::Pair("".into(), "v".into()) },
        Prop { id: 0x26, v: PV::Pair(long.clone(), long) },
    ]
}

pub fn b04(ctx: &Ctx) {
    ctx.rule("every combination of PUBLISH properties present/absent, QoS, retain, duplicate mark, granted QoS and payload shape through the real broker; a run of over 65,536 deliveries with one left unacknowledged");
    let acc: &[&str] = &["content", "deliver", "panic", "garbled", "accept", "harness-panic"];
    let all: Vec<Vec<Prop>> = vec![
        vec![Prop { id: 1, v: PV::B(1) }],
        vec![Prop { id: 2, v: PV::U32(7200) }],
        vec![Prop { id: 3, v: PV::Str("text/plain".into()) }],
        vec![Prop { id: 8, v: PV::Str("re/ply".into()) }],
        vec![Prop { id: 9, v: PV::Bin(vec![0, 1, 255]) }],
        vec![
            Prop { id: 0x26, v: PV::Pair("k".into(), "v1".into()) },
            Prop { id: 0x26, v: PV::Pair("z".into(), "v1".into()) },
            Prop { id: 0x26, v: PV::Pair("k".into(), "v2".into()) },
            Prop { id: 0x26, v: PV::Pair("".into(), "".into()) },
            Prop { id: 0x26, v: PV::Pair("z".into(), "v1".into()) },
        ],
    ];
    explore(ctx, "content", Cfg::NONE, &|w| {
        w.accept = Some(acc);
        let mut s = Sys::new(w, config(), 3);
        let m = w.pick(1 << all.len());
        s.props = all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).flat_map(|x| x.1.clone()).collect();
        for o in [con(0, "s", true), con(1, "p", true), con(2, "t", true)] {
            s.step(w, &o)
        }
        let g = w.pick(3) as u8;
        s.step(w, &sub(0, &[("t/+", g)]));
        let g2 = w.pick(3) as u8;
        s.step(w, &sub(2, &[("t/a", g2)]));
        for q in 0..2 {
            for dup in [false, true] {
                if !w.dead {
                    s.step(w, &Op::Pub { slot: 1, topic: "t/a", qos: q, dup })
                }
            }
        }
    });
    // the extreme values of each property
    let extreme = extreme_props();
    explore(ctx, "property values", Cfg::NONE, &|w| {
        w.accept = Some(acc);
        let mut s = Sys::new(w, config(), 2);
        let (a, b) = (w.pick(extreme.len()), w.pick(extreme.len()));
        s.props = vec![extreme[a].clone()];
        if extreme[b].id > extreme[a].id {
            s.props.push(extreme[b].clone());
        }
        let g = w.pick(2) as u8;
        for o in [con(0, "s", true), con(1, "p", true), sub(0, &[("t/a", g)]), pb(1, "t/a", 0), pb(1, "t/a", 1)] {
            if !w.dead {
                s.step(w, &o)
            }
        }
    });
    // payloads and topics of every awkward size go through unchanged
    let sizes: Vec<usize> = vec![0, 1, 2, 100, 119, 120, 121, 122, 127, 128, 4000, 4080, 4095, 4096, 4097, 5000, 16_370, 16_383, 16_384, 70_000, 2_097_000, 2_097_151, 2_097_152, 4_000_000];
    explore(ctx, "payload sizes", Cfg::NONE, &|w| {
        let k = sizes[w.pick(sizes.len())];
        let q = w.pick(2) as u8;
        let mut n = Net::start(w, config());
        for id in ["s", "p"] {
            let i = n.dial(id).unwrap();
            n.peers[i].send(&connect(id, true));
            w.run();
        }
        n.peers[0].send(&subscribe(1, &[("#", 1)]));
        w.run();
        n.peers[0].recv();
        let payload: Vec<u8> = (0..k).map(|i| (i * 7 % 256) as u8).collect();
        let topic = "t/".to_string() + &"é".repeat(if k > 5000 { 30_000 } else { k / 2 });
        for _ in 0..2 {
            n.peers[1].send(&publish(&topic, q, 3, &payload));
            w.run();
            let mut got = n.peers[0].recv();
            while n.peers[0].unread() > 0 || (got.is_empty() && { w.run(); n.peers[0].unread() > 0 }) {
                got.extend(n.peers[0].recv());
                w.run();
            }
            match &got[..] {
                [P::Publish { topic: t, payload: p, .. }] if *t == topic && *p == payload => {}
                x => w.fail("content/payload", format!("{k} bytes: got {}", shows(x))),
            }
        }
    });
    // all of them unacknowledged: none is used twice
    explore(ctx, "no identifier left", Cfg::NONE, &|w| {
        let free = w.pick(3);
        let mut n = Net::start(w, config());
        for id in ["s", "p"] {
            let i = n.dial(id).unwrap();
            n.peers[i].send(&connect(id, true));
            w.run();
        }
        n.peers[0].send(&subscribe(1, &[("#", 1)]));
        w.run();
        n.peers[0].recv();
        let mut open = vec![false; 65_536];
        for k in 0..65_550usize {
            if k == 65_535 && free > 0 {
                for id in [7u16, 40_000].into_iter().take(free) {
                    n.peers[0].send(&ack(4, id));
                    open[id as usize] = false;
                }
                w.run();
            }
            n.peers[1].send(&publish("t", 1, (k % 65_000) as u16 + 1, b"x"));
            w.run();
            n.peers[1].take_raw();
            match &n.peers[0].recv()[..] {
                [P::Publish { pid: Some(p), dup: false, .. }] => {
                    if *p == 0 || open[*p as usize] {
                        w.fail("content/identifier", format!("delivery {k} uses identifier {p}, which is still unacknowledged"));
                        return;
                    }
                    open[*p as usize] = true;
                }
                // it may be disconnected, once nothing is left
                _ if k >= 65_535 + free => break,
                x => {
                    w.fail("content/missing", format!("delivery {k}: {}", shows(x)));
                    return;
                }
            }
        }
        // the publisher is served on
        n.peers[1].send(&P::PingReq);
        w.run();
        let v = n.peers[1].recv();
        if !v.contains(&P::PingResp) {
            w.fail("content/stuck", format!("with no identifier left for a subscriber the publisher got {}", shows(&v)));
        }
    });
    // identifiers over the wrap of the counter, with some never acknowledged
    explore(ctx, "identifier wrap", Cfg::NONE, &|w| {
        let keep = [vec![0usize], vec![0, 1, 2], vec![40_000, 65_534], vec![65_533, 65_534, 65_535], vec![65_534, 65_535, 65_536], vec![]][w.pick(6)].clone();
        let mut n = Net::start(w, config());
        for id in ["s", "p"] {
            let i = n.dial(id).unwrap();
            n.peers[i].send(&connect(id, true));
            w.run();
        }
        n.peers[0].send(&subscribe(1, &[("#", 1)]));
        w.run();
        n.peers[0].recv();
        let mut open = std::collections::HashSet::new();
        for k in 0..133_000usize {
            n.peers[1].send(&publish("t", 1, (k % 65_000) as u16 + 1, b"x"));
            w.run();
            n.peers[1].take_raw();
            match &n.peers[0].recv()[..] {
                [P::Publish { pid: Some(p), dup: false, .. }] => {
                    if *p == 0 || open.contains(p) {
                        w.fail("content/identifier", format!("delivery {k} uses identifier {p}, unacknowledged: {open:?}"));
                        return;
                    }
                    if keep.contains(&k) {
                        open.insert(*p);
                    } else {
                        n.peers[0].send(&ack(4, *p));
                    }
                }
                x => {
                    w.fail("content/missing", format!("delivery {k}: {}", shows(x)));
                    return;
                }
            }
        }
        w.note(format!("{open:?}"));
    });
}

// ------------------------------------------------------------------ B08, B15, B16

pub fn b08(ctx: &Ctx) {
    ctx.rule("every history of clean and resuming connects, takeovers, subscriptions, unacknowledged deliveries and ends of two clients to the stated depth, then deliveries and a resumption probed; compared with the reference model");
    let acc: &[&str] = &["connack", "deliver", "redeliver", "panic", "garbled", "accept", "harness-panic"];
    let al = vec![
        con(0, "a", true),
        con(0, "a", false),
        con(1, "a", true),
        con(1, "a", false),
        sub(0, &[("t", 1)]),
        sub(1, &[("u", 1)]),
        pb(2, "t", 1),
        Op::Drop { slot: 0 },
        Op::Bye { slot: 0, reason: 0 },
        Op::Drop { slot: 1 },
        Op::Bye { slot: 1, reason: 4 },
        Op::Ack { slot: 0, which: Which::First },
    ];
    let probe = vec![pb(2, "t", 1), pb(2, "u", 0), Op::Drop { slot: 0 }, Op::Drop { slot: 1 }, con(0, "a", false), pb(2, "t", 1), Op::Drop { slot: 0 }, con(0, "a", true), pb(2, "t", 0), pb(2, "u", 0)];
    hist(ctx, acc, &Hist {
        setup: vec![con(2, "p", true)],
        alphabet: al.clone(),
        depth: if ctx.thorough { 7 } else { 6 },
        probe: probe.clone(),
        ..Hist::new("one identifier, two connections", 3)
    });
    similar(ctx);
    // several identifiers, and generated ones
    let mut al = vec![];
    for (i, id) in ["a", "b", ""].into_iter().enumerate() {
        al.push(con(i, id, true));
        if !id.is_empty() {
            al.push(con(i, id, false));
        }
        al.push(Op::Drop { slot: i });
        al.push(Op::Bye { slot: i, reason: 0 });
    }
    al.push(sub(0, &[("t", 1)]));
    al.push(sub(1, &[("t", 0)]));
    al.retain(|o| !matches!(o, Op::Connect { id: "", .. }));
    hist(ctx, acc, &Hist {
        setup: vec![con(3, "p", true)],
        alphabet: al,
        depth: if ctx.thorough { 7 } else { 6 },
        probe: vec![pb(3, "t", 1), con(0, "a", false), con(1, "b", false), pb(3, "t", 1)],
        ..Hist::new("two identifiers", 4)
    });
    // wills do not survive a clean start, and are replaced on resumption
    let al = vec![
        conw(0, "a", true, "w", 0, 0),
        conw(0, "a", false, "w", 1, 0),
        conw(1, "a", true, "w", 1, 7),
        con(0, "a", true),
        con(0, "a", false),
        con(1, "a", false),
        con(1, "a", true),
        Op::Drop { slot: 0 },
        Op::Bye { slot: 0, reason: 0 },
        Op::Bye { slot: 0, reason: 4 },
        Op::Drop { slot: 1 },
        sub(0, &[("t", 1), ("u/#", 0)]),
        pb(2, "t", 1),
        pb(2, "u", 0),
    ];
    let acc: &[&str] = &["connack", "deliver", "redeliver", "panic", "garbled", "accept", "harness-panic"];
    hist(ctx, acc, &Hist {
        setup: vec![con(2, "p", true), sub(2, &[("w", 1)])],
        alphabet: al,
        depth: if ctx.thorough { 6 } else { 5 },
        probe: vec![pb(2, "t", 1), pb(2, "u", 1), Op::Drop { slot: 0 }, Op::Drop { slot: 1 }, con(0, "a", false), pb(2, "t", 0), con(1, "a", true), pb(2, "t", 1), Op::Drop { slot: 1 }, Op::Tick { ms: 10_000 }],
        ..Hist::new("wills and clean start", 3)
    });
    alike(ctx, acc);
    empty_id(ctx);
    // whatever else a CONNECT says
    let opts: Vec<(&str, Vec<Prop>)> = vec![
        ("nothing", vec![]),
        ("expiry 5", vec![Prop { id: 0x11, v: PV::U32(5) }]),
        ("expiry 599", vec![Prop { id: 0x11, v: PV::U32(599) }]),
        ("expiry 600", vec![Prop { id: 0x11, v: PV::U32(600) }]),
        ("expiry 601", vec![Prop { id: 0x11, v: PV::U32(601) }]),
        ("expiry never", vec![Prop { id: 0x11, v: PV::U32(u32::MAX) }]),
        ("receive maximum", vec![Prop { id: 0x11, v: PV::U32(600) }, Prop { id: 0x21, v: PV::U16(20) }]),
        ("maximum packet size", vec![Prop { id: 0x11, v: PV::U32(600) }, Prop { id: 0x27, v: PV::U32(100_000) }]),
        ("topic aliases", vec![Prop { id: 0x11, v: PV::U32(600) }, Prop { id: 0x22, v: PV::U16(9) }]),
        ("response and problem information", vec![Prop { id: 0x11, v: PV::U32(600) }, Prop { id: 0x19, v: PV::B(1) }, Prop { id: 0x17, v: PV::B(0) }]),
        ("user properties", vec![Prop { id: 0x11, v: PV::U32(600) }, Prop { id: 0x26, v: PV::Pair("a".into(), "b".into()) }, Prop { id: 0x26, v: PV::Pair("a".into(), "c".into()) }]),
    ];
    explore(ctx, "connect options", Cfg::NONE, &|w| {
        let (first, second) = (w.pick(opts.len()), w.pick(opts.len()));
        let clean = w.pick(2) == 1;
        let how = w.pick(4);
        let auth = w.pick(3);
        let ka = [0u16, 1, 30, 60, 600][w.pick(5)];
        let mut n = Net::start(w, config());
        let go = |w: &mut World, n: &mut Net, clean: bool, o: usize| {
            let i = n.dial("x").unwrap();
            let p = keep_alive(connect_props(connect("x", clean), opts[o].1.clone()), ka);
            let p = match p {
                P::Connect { clean, keep_alive, props, client_id, will, .. } => P::Connect {
                    clean,
                    keep_alive,
                    props,
                    client_id,
                    will,
                    username: (auth > 0).then(|| "user".into()),
                    password: (auth > 1).then(|| b"pass".to_vec()),
                },
                p => p,
            };
            let p = if how == 3 { with_will(p, "w", b"w", 1, 0) } else { p };
            n.peers[i].send(&p);
            w.run();
            let v = n.peers[i].recv();
            (i, v)
        };
        let first_clean = w.pick(2) == 0;
        let (i, v) = go(w, &mut n, first_clean, first);
        if !matches!(&v[..], [P::ConnAck { sp: false, reason: 0, .. }]) {
            w.fail("connack/session-present", format!("{}, a new client, clean start {first_clean}: {}", opts[first].0, shows(&v)));
            return;
        }
        n.peers[i].send(&subscribe(1, &[("t", 1)]));
        n.peers[i].send(&publish("t", 1, 2, b"one"));
        w.run();
        let v = n.peers[i].recv();
        let pid = v.iter().find_map(|p| match p {
            P::Publish { pid, .. } => *pid,
            _ => None,
        });
        if pid.is_none() {
            w.fail("deliver/missing", shows(&v));
            return;
        }
        match how {
            0 => n.peers[i].close(),
            1 => n.peers[i].send(&disconnect(0)),
            _ => {}
        }
        w.run();
        let (j, v) = go(w, &mut n, clean, second);
        let why = format!("{} then {} (ended {how})", opts[first].0, opts[second].0);
        // a session whose first connection asked for no expiry ends with it
        let may_end = how < 2 && first == 0;
        let ok = match &v[..] {
            [P::ConnAck { sp: false, reason: 0, .. }] => clean || may_end,
            [P::ConnAck { sp: true, reason: 0, .. }, P::Publish { dup: true, pid: p, payload, .. }] => !clean && *p == pid && payload == b"one",
            _ => false,
        };
        if !ok {
            w.fail("connack/session-present", format!("{why}, clean {clean}: {}", shows(&v)));
            return;
        }
        let sp = v.len() == 2;
        n.peers[j].send(&publish("t", 0, 0, b"two"));
        w.run();
        let v = n.peers[j].recv();
        if v.len() != sp as usize {
            w.fail("deliver/unexpected", format!("{why}, clean {clean}: its own message is delivered as {}", shows(&v)));
        }
    });
    // a clean start while messages are on their way to the old session
    explore(ctx, "publishing meanwhile", Cfg::all(if ctx.thorough { 3 } else { 2 }), &|w| {
        let live = w.pick(2) == 1;
        let q = w.pick(2) as u8;
        let (mut n, p, a) = w.quiet(|w| {
            let mut n = Net::start(w, config());
            let p = crate::sched::joined(w, &mut n, "p");
            let a = crate::sched::joined(w, &mut n, "a");
            crate::sched::ask(w, &mut n, a, &subscribe(1, &[("t", 1), ("#", 0)]));
            if !live {
                n.peers[a].close();
                w.run();
            }
            (n, p, a)
        });
        n.peers[p].send(&publish("t", q, 1, b"m0"));
        w.run_or_stop();
        let i = n.dial("new").unwrap();
        n.peers[i].send(&connect("a", true));
        n.peers[p].send(&publish("t", q, 2, b"m1"));
        w.run_or_stop();
        n.peers[p].send(&publish("t", q, 3, b"m2"));
        for _ in 0..4 {
            w.run();
        }
        let v = n.peers[i].recv();
        w.note(format!("{live} {q}: {} | {}", shows(&v), shows(&n.peers[a].recv())));
        if !matches!(&v[..], [P::ConnAck { sp: false, reason: 0, .. }]) {
            w.fail("deliver/unexpected", format!("a clean start, nothing subscribed since, got {}", shows(&v)));
        }
        w.quiet(|w| {
            n.peers[i].close();
            w.run();
            let j = n.dial("resumed").unwrap();
            n.peers[j].send(&connect("a", false));
            w.run();
            w.run();
            let v = n.peers[j].recv();
            if !matches!(&v[..], [P::ConnAck { reason: 0, .. }]) {
                w.fail("redeliver/unexpected", format!("nothing was delivered to the session, its resumption got {}", shows(&v)));
            }
        });
    });
}
/// Identifiers that resemble each other name different sessions.
fn alike(ctx: &Ctx, acc: &'static [&'static str]) {
    let long = |c: &str, n: usize, end: &str| -> &'static str { Box::leak((c.repeat(n) + end).into_boxed_str()) };
    let sets: Vec<Vec<&'static str>> = vec![
        vec!["a", "A", "aa", " a", "a ", "á", "a\u{301}"],
        vec![long("x", 22, ""), long("x", 23, ""), long("x", 24, ""), long("x", 22, "y"), long("x", 23, "y")],
        vec![long("x", 63, "1"), long("x", 64, "1"), long("x", 64, "2"), long("x", 65, ""), long("x", 127, ""), long("x", 128, ""), long("x", 129, "")],
        vec![long("é", 31, "a"), long("é", 32, "a"), long("é", 32, "b"), long("日", 21, "a"), long("日", 22, "b"), long("😀", 16, "c"), long("😀", 17, "")],
        vec![long("k", 255, "1"), long("k", 256, "1"), long("k", 256, "2"), long("k", 65_534, "1"), long("k", 65_534, "2")],
        vec!["0", "00", "-", "/", "+", "#", "$", "\u{feff}"],
    ];
    explore(ctx, "identifiers alike", Cfg { seeds: 2, ..Cfg::NONE }, &|w| {
        w.accept = Some(acc);
        let ids = &sets[w.pick(sets.len())];
        let (a, b) = (w.pick(ids.len()), w.pick(ids.len()));
        let end = w.pick(3);
        let mut s = Sys::new(w, config(), 3);
        let mut ops = vec![con(2, "p", true), con(0, ids[a], true), sub(0, &[("t", 1)]), pb(2, "t", 1)];
        match end {
            0 => {}
            1 => ops.push(Op::Drop { slot: 0 }),
            _ => ops.push(Op::Bye { slot: 0, reason: 0 }),
        }
        ops.extend([con(1, ids[b], false), pb(2, "t", 1), con(0, ids[a], false), Op::Drop { slot: 1 }, con(1, ids[b], true), pb(2, "t", 0), con(0, ids[a], false), pb(2, "t", 1)]);
        for o in &ops {
            if w.dead {
                return;
            }
            if s.enabled(o) {
                s.step(w, o)
            }
        }
    });
}
/// A client that leaves its identifier empty gets its own fresh session and is told its name.
fn empty_id(ctx: &Ctx) {
    explore(ctx, "assigned identifiers", Cfg { seeds: 3, ..Cfg::NONE }, &|w| {
        let mut n = Net::start(w, config());
        let mut names = vec![];
        for k in 0..3 {
            let i = n.dial(&format!("e{k}")).unwrap();
            n.peers[i].send(&connect("", k != 1));
            w.run();
            match &n.peers[i].recv()[..] {
                [P::ConnAck { sp: false, reason: 0, props }] => match props.iter().find(|p| p.id == 0x12) {
                    Some(Prop { v: PV::Str(s), .. }) if !s.is_empty() && !names.contains(s) => names.push(s.clone()),
                    x => w.fail("connack/assigned", format!("{x:?} after {names:?}")),
                },
                x => w.fail("connack/assigned", shows(x)),
            }
        }
        if w.dead {
            return;
        }
        // and the session can be resumed under that name
        n.peers[0].send(&subscribe(1, &[("t", 0)]));
        w.run();
        n.peers[0].close();
        w.run();
        let i = n.dial("again").unwrap();
        n.peers[i].send(&connect(&names[0], false));
        w.run();
        match &n.peers[i].recv()[..] {
            [P::ConnAck { sp: true, reason: 0, .. }] => {}
            x => w.fail("connack/assigned-resume", shows(x)),
        }
    });
}

pub fn b15(ctx: &Ctx) {
    ctx.rule("every history of subscriptions with and without no-local over overlapping filters, publications by subscriber and others, and session resumptions to the stated depth; compared with the reference model");
    let acc: &[&str] = &["deliver", "content", "panic", "garbled", "accept", "harness-panic"];
    let mut al = vec![];
    for s in 0..2 {
        al.push(sub(s, &[("x/y", 1 | 4)]));
        al.push(sub(s, &[("x/#", 4)]));
        al.push(sub(s, &[("x/+", 0)]));
        al.push(pb(s, "x/y", 1));
    }
    al.push(sub(0, &[("x/y", 1)]));
    al.push(sub(0, &[("x/#", 1), ("x/y", 4), ("x/+", 5)]));
    al.push(unsub(0, &["x/y"]));
    al.push(unsub(1, &["x/+"]));
    al.push(Op::Drop { slot: 0 });
    al.push(con(0, "a", false));
    al.push(con(0, "a", true));
    hist(ctx, acc, &Hist {
        setup: vec![con(0, "a", true), con(1, "A", true), con(2, "aa", true)],
        alphabet: al,
        depth: if ctx.thorough { 6 } else { 4 },
        probe: vec![pb(0, "x/y", 0), pb(1, "x/y", 1), pb(2, "x/y", 0), Op::Drop { slot: 0 }, con(0, "a", false), pb(0, "x/y", 1), pb(1, "x/y", 0), pb(0, "x", 0)],
        ..Hist::new("no-local", 3)
    });
    // whose message it is: identifiers that are easily taken for one another
    let ids = similar_ids();
    explore(ctx, "similar identifiers", Cfg::NONE, &|w| {
        let (a, b) = &ids[w.pick(ids.len())];
        let (a, b) = if w.pick(2) == 1 { (b, a) } else { (a, b) };
        let filter = ["t", "#", "+"][w.pick(3)];
        let mut n = Net::start(w, config());
        let mut is = vec![];
        for (k, id) in [a, b].into_iter().enumerate() {
            let i = n.dial("x").unwrap();
            n.peers[i].send(&connect(id, true));
            n.peers[i].send(&subscribe(1, &[(filter, 1 | 4)]));
            crate::sched::settle(w);
            let v = n.peers[i].recv();
            if v.len() != 2 {
                w.fail("connack/similar", format!("{k}: {id:.40?} gets {}", shows(&v)));
                return;
            }
            is.push(i);
        }
        for k in [0usize, 1, 0] {
            n.peers[is[k]].send(&publish("t", 1, 7, b"m"));
            crate::sched::settle(w);
            let own = n.peers[is[k]].recv();
            let other = n.peers[is[1 - k]].recv();
            if own.iter().any(|p| matches!(p, P::Publish { .. })) || !matches!(&other[..], [P::Publish { .. }]) {
                w.fail("deliver/similar", format!("{a:.40?} and {b:.40?}: client {k} publishes and gets {}, the other one {}", shows(&own), shows(&other)));
                return;
            }
        }
    });
    // a will is not the client's own message: whoever it goes to, no one else is affected
    hist(ctx, acc, &Hist {
        setup: vec![conw(0, "a", true, "x/y", 1, 0), con(1, "A", true), con(2, "aa", true)],
        alphabet: vec![
            sub(1, &[("x/y", 4)]),
            sub(2, &[("x/#", 5)]),
            pb(1, "x/y", 0),
            pb(2, "x/y", 1),
            Op::Drop { slot: 0 },
            Op::Bye { slot: 0, reason: 4 },
            conw(0, "a", false, "x/y", 1, 0),
        ],
        depth: 5,
        probe: vec![pb(1, "x/y", 1)],
        ..Hist::new("no-local and wills", 3)
    });
}

pub fn b16(ctx: &Ctx) {
    ctx.rule("after every step of every history of connects, requests, deliveries, ends, takeovers and timeouts to the stated depth the scheduler is run until nothing is runnable; a task that keeps itself runnable is reported");
    let acc: &[&str] = &["idle", "harness-panic"];
    let mut al = vec![
        con(0, "a", true),
        con(0, "a", false),
        con(1, "a", false),
        con(1, "b", true),
        sub(0, &[("t", 1)]),
        pb(1, "t", 1),
        Op::Drop { slot: 0 },
        Op::Reset { slot: 0 },
        Op::Bye { slot: 0, reason: 0 },
        Op::Bye { slot: 1, reason: 4 },
        Op::Garbage { slot: 0 },
        Op::Ping { slot: 0 },
        Op::Tick { ms: 46_000 },
        Op::Tick { ms: 100_000 },
    ];
    hist(ctx, acc, &Hist { alphabet: al.clone(), depth: if ctx.thorough { 7 } else { 6 }, ..Hist::new("any history", 2) });
    al.push(conw(0, "a", true, "t", 1, 3));
    hist(ctx, acc, &Hist {
        alphabet: al,
        depth: if ctx.thorough { 6 } else { 5 },
        cfg: vaux_broker::Config { max_active_sessions: Some(1), session_channel_size: 1, ..config() },
        ..Hist::new("any history with limits", 2)
    });
    // while no timer is due, time passing wakes nobody
    explore(ctx, "quiet time", Cfg::NONE, &|w| {
        let kinds = 9;
        let mut n = Net::start(w, vaux_broker::Config { session_channel_size: 2, ..config() });
        let mut ks = vec![];
        for i in 0..3u16 {
            let k = w.pick(kinds);
            ks.push(k);
            let id = ["a", "b", "c"][i as usize];
            let a = n.dial(id).unwrap();
            if k == 0 {
                continue;
            }
            let ka = if k == 8 { 0 } else { 60 };
            let mut p = keep_alive(connect(id, true), ka);
            if k >= 6 {
                p = with_will(p, "t/w", b"will", 1, if k == 7 { 400 } else { 0 });
            }
            n.peers[a].send(&connect_props(p, vec![Prop { id: 0x11, v: PV::U32(3000) }]));
            w.run();
            n.peers[a].send(&subscribe(1, &[("t/#", 1)]));
            w.run();
            n.peers[a].send(&publish("t/x", 1, 2, b"m"));
            w.run();
            match k {
                2 => n.peers[a].close(),
                3 => n.peers[a].send(&disconnect(0)),
                4 => n.peers[a].half_close(),
                5 => n.peers[a].window(1),
                7 => n.peers[a].send(&disconnect(4)),
                _ => {}
            }
            w.run();
        }
        w.advance(2_000);
        for round in 0..2 {
            for p in &mut n.peers {
                if !p.is_windowed() {
                    p.recv();
                }
            }
            w.run();
            let before = tokio::sim::polls();
            w.advance(15_000);
            let d = tokio::sim::polls() - before;
            w.note(format!("{ks:?} round {round}: {d} polls"));
            if d > 4 {
                w.fail("idle/polling", format!("connections {ks:?}: {d} task polls within 15 s in which nothing happened and nothing was due"));
                return;
            }
        }
    });
    // connections that never say anything, half-open ones, unread ones
    explore(ctx, "odd connections", Cfg { bound: 1, task: true, select: true, ..Cfg::NONE }, &|w| {
        let mut n = Net::start(w, vaux_broker::Config { session_channel_size: 2, ..config() });
        let a = n.dial("a").unwrap();
        let k = w.pick(8);
        match k {
            0 => {}
            1 => n.peers[a].send_raw(&[0x10]),
            2 => n.peers[a].half_close(),
            3 => n.peers[a].close(),
            4 => n.peers[a].send(&P::PingReq),
            _ => {
                n.peers[a].send(&connect("a", true));
                w.run();
                n.peers[a].send(&subscribe(1, &[("#", 1)]));
                w.run();
                match k {
                    5 => n.peers[a].half_close(),
                    6 => n.peers[a].window(1),
                    _ => n.peers[a].break_writes(3),
                }
            }
        }
        w.run();
        let b = n.dial("b").unwrap();
        n.peers[b].send(&connect("b", true));
        for i in 0..5 {
            n.peers[b].send(&publish("x", (i % 2) as u8, i + 1, b"hello"));
            w.run();
        }
        for _ in 0..4 {
            w.advance(20_000);
        }
        w.note(format!("{k} {}", w.spun));
        if w.spun {
            w.fail("idle/spinning", format!("connection kind {k}: the broker keeps running although nothing happens"));
        }
    });
    let _ = Duration::ZERO;
}
