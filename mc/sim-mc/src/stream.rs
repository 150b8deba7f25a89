//! S01-S04: the packet stream of vaux-async over every chunking of the byte stream.
use crate::net::*;
use bytes::{Bytes, BytesMut};
use mcbase::*;
use refmqtt::{self as rm, Form, P};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};
use tokio::sim::net::TcpStream;
use vaux_async::stream::{AsyncMqttStream, Error, MqttStream, PacketStream};
use vaux_mqtt::Packet;
use vaux_mqtt::codec::decode;

/// What the transport does at one byte boundary of the stream.
/// 0 nothing, 1 read ends here, 2 read ends and the next one is not ready, 3 as 2 and the reader
/// abandons the pending read and calls again.
type Plan = Vec<u8>;

#[derive(Clone)]
struct Case {
    /// (packet bytes, well formed)
    pk: Vec<Vec<u8>>,
    plan: Plan,
    init: Option<usize>,
    max: Option<usize>,
    /// which reads are raw
    raw: Vec<bool>,
    /// bytes after which the stream ends; `err`: with an error
    cut: Option<usize>,
    err: bool,
}
impl Case {
    fn show(&self) -> String {
        format!(
            "packets {} plan {} init {:?} max {:?} raw {:?} cut {:?} err {}",
            self.pk.iter().map(|b| hexclip(b)).collect::<Vec<_>>().join("|"),
            if self.plan.len() > 64 {
                format!(
                    "[{} boundaries, not 0 at {:?}]",
                    self.plan.len(),
                    self.plan.iter().enumerate().filter(|x| *x.1 != 0).map(|x| (x.0 + 1, *x.1)).take(12).collect::<Vec<_>>()
                )
            } else {
                self.plan.iter().map(|x| x.to_string()).collect::<String>()
            },
            self.init,
            self.max,
            self.raw,
            self.cut,
            self.err
        )
    }
}

#[derive(Debug)]
enum Got {
    Packet(Packet, Option<Bytes>),
    End,
    Failed(String),
    Stuck,
}

fn streams() -> (TcpStream, TcpStream) {
    let a = std::net::SocketAddr::from(([127, 0, 0, 1], 1));
    let b = std::net::SocketAddr::from(([127, 0, 0, 1], 2));
    TcpStream::pair(a, b)
}

/// Reads until the end, an error, or nothing more to come.
fn read_all(c: &Case) -> Result<Vec<Got>, String> {
    catch(|| {
        let (far, near) = streams();
        let all: Vec<u8> = c.pk.concat();
        let len = c.cut.unwrap_or(all.len());
        let mut cancels: VecDeque<bool> = VecDeque::new();
        {
            let mut p = far.tx.lock().unwrap();
            p.buf.extend(&all[..len]);
            let mut n = 0;
            for (i, k) in c.plan.iter().enumerate() {
                if i + 1 >= len {
                    break;
                }
                n += 1;
                if *k > 0 {
                    p.rplan.push_back(n);
                    n = 0;
                    if *k > 1 {
                        p.rplan.push_back(0);
                        cancels.push_back(*k == 3)
                    }
                }
            }
            if c.cut.is_some() {
                if c.err {
                    p.read_err = Some(std::io::ErrorKind::ConnectionReset)
                } else {
                    p.fin = true
                }
            }
        }
        let mut s = PacketStream::new(AsyncMqttStream(MqttStream::TcpStream(near)), c.init, c.max);
        let mut out = vec![];
        let mut cx = Context::from_waker(Waker::noop());
        let mut ends = 0;
        while out.len() < c.pk.len() + 3 {
            let raw = c.raw.get(out.len()).copied().unwrap_or(c.raw.last().copied().unwrap_or(false));
            // abandon and call again as often as the plan says
            let r: Result<Option<(Packet, Option<Bytes>)>, Error> = 'call: loop {
                let mut f = pin!(async {
                    if raw {
                        s.read_raw().await.map(|x| x.map(|(p, b)| (p, Some(b))))
                    } else {
                        s.read().await.map(|x| x.map(|p| (p, None)))
                    }
                });
                let mut polls = 0;
                loop {
                    match f.as_mut().poll(&mut cx) {
                        Poll::Ready(r) => break 'call r,
                        Poll::Pending => match cancels.pop_front() {
                            Some(true) => continue 'call,
                            Some(false) => continue,
                            None => {
                                polls += 1;
                                if far.tx.lock().unwrap().buf.is_empty() || polls > 100 {
                                    out.push(Got::Stuck);
                                    return out;
                                }
                            }
                        },
                    }
                }
            };
            match r {
                Ok(Some((p, b))) => out.push(Got::Packet(p, b)),
                Ok(None) => {
                    out.push(Got::End);
                    ends += 1
                }
                Err(e) => {
                    out.push(Got::Failed(format!("{e:?}")));
                    ends += 1
                }
            }
            // reading on after the end must stay definite too
            if ends == 3 {
                break;
            }
        }
        drop(far);
        out
    })
}

fn reference(b: &[u8]) -> Option<Packet> {
    match decode(&mut BytesMut::from(b)) {
        Ok(Some((p, _))) => Some(p),
        _ => None,
    }
}

/// `fits`: packets the configuration has room for; all earlier ones are to be delivered.
fn judge(c: &Case) -> Option<(String, String)> {
    let max = c.max.unwrap_or(4096 * 1024);
    let got = match read_all(c) {
        Err(m) => {
            let k = if m.contains("for ever") { "endless" } else { "panic" };
            return Some((k.into(), m));
        }
        Ok(g) => g,
    };
    let total: usize = c.pk.iter().map(|b| b.len()).sum();
    let len = c.cut.unwrap_or(total);
    let mut at = 0;
    let mut i = 0;
    let mut ended = false;
    let mut why = None; // what ends the stream
    for b in &c.pk {
        if at + b.len() > len {
            why = Some(if at == len { "eof" } else { "mid" });
            break;
        }
        if b.len() > max {
            why = Some("big");
            break;
        }
        let Some(want) = reference(b) else {
            why = Some("bad");
            break;
        };
        match got.get(i) {
            Some(Got::Packet(p, r)) => {
                if *p != want {
                    return Some(("wrong-packet".into(), clip(&format!("packet {i}: {p:?} instead of {want:?}"), 700)));
                }
                if let Some(r) = r {
                    if r[..] != b[..] {
                        return Some(("wrong-raw".into(), format!("packet {i}: {} instead of {}", hexclip(r), hexclip(b))));
                    }
                }
            }
            o => return Some(("lost".into(), clip(&format!("packet {i} not delivered: {o:?}"), 400))),
        }
        i += 1;
        at += b.len();
    }
    if why == Some("mid") && !c.err {
        // the rest of a packet larger than the buffer may be refused before the end is seen
    }
    let why = why.unwrap_or(if c.cut.is_some() { "eof" } else { "idle" });
    for (k, g) in got[i.min(got.len())..].iter().enumerate() {
        ended = true;
        let ok = match (why, g) {
            ("idle", Got::Stuck) => true,
            ("eof", Got::End) if !c.err => true,
            ("eof" | "mid", Got::Failed(_)) if c.err => true,
            ("mid", Got::End | Got::Failed(_)) => true,
            ("big" | "bad", Got::Failed(_)) => true,
            // after the error is reported anything definite but a packet will do
            ("big" | "bad", Got::End | Got::Stuck) => k > 0,
            _ => false,
        };
        if !ok {
            let key = match g {
                Got::Packet(..) => "invented",
                Got::Stuck => "stuck",
                _ => "wrong-end",
            };
            return Some((format!("{key}/{why}"), clip(&format!("after {i} packets, expecting {why}: {g:?}"), 500)));
        }
    }
    if !ended {
        return Some(("no-end".into(), format!("expecting {why}, nothing happened")));
    }
    None
}

fn run(ctx: &Ctx, cases: u64, make: &(dyn Fn(u64) -> Case + Sync)) {
    const B: u64 = 256;
    par(ctx, cases.div_ceil(B) as usize, |j| {
        if ctx.out_of_time() {
            return;
        }
        let mut st = 0;
        let mut n = 0;
        for k in j as u64 * B..(j as u64 * B + B).min(cases) {
            let c = make(k);
            st += c.plan.len() as u64 + 1;
            n += 1;
            mcbase::at(|s| s.push_str(&c.show()));
            if let Some((key, d)) = judge(&c) {
                ctx.violation(&key, || format!("{d}\n  {}", c.show()), || c.show());
            }
            if ctx.wants_sample() && k % 97 == 13 {
                ctx.sample(|| c.show())
            }
        }
        ctx.st(st);
        ctx.tr(st);
        ctx.tc(n);
    });
}

fn small() -> Vec<(&'static str, Vec<u8>)> {
    let e = |p: &P| rm::encode(p, Form::Long);
    vec![
        ("ping", e(&P::PingResp)),
        ("puback", vec![0x40, 2, 0, 9]),
        ("pub", e(&publish("a", 0, 0, b"x"))),
        ("pub1", e(&publish("a", 1, 5, b""))),
        ("empty", e(&publish("b", 0, 0, b""))),
        // bytes that look like packets of their own
        ("nest", e(&publish("c", 0, 0, &[0xd0, 0, 0x40]))),
        ("disc", vec![0xe0, 0]),
    ]
}
fn sequences(maxlen: usize, maxpk: usize) -> Vec<Vec<Vec<u8>>> {
    let s = small();
    let mut out = vec![];
    let mut level: Vec<Vec<Vec<u8>>> = vec![vec![]];
    for _ in 0..maxpk {
        let mut next = vec![];
        for q in &level {
            for (_, b) in &s {
                let mut x = q.clone();
                x.push(b.clone());
                if x.iter().map(|b| b.len()).sum::<usize>() <= maxlen {
                    next.push(x)
                }
            }
        }
        out.extend(next.clone());
        level = next;
    }
    out
}
fn plan(mut k: u64, base: u64, n: usize) -> Plan {
    (0..n)
        .map(|_| {
            let d = k % base;
            k /= base;
            match (base, d) {
                (2, 1) => 3,
                (3, 1) => 1,
                (3, 2) => 3,
                (_, d) => d as u8,
            }
        })
        .collect()
}

/// Every plan of every short sequence of packets.
fn all_plans(ctx: &Ctx, seqs: &[Vec<Vec<u8>>], cfgs: &[(Option<usize>, Option<usize>)], raws: &dyn Fn(usize) -> Vec<Vec<bool>>) {
    for q in seqs {
        let n = q.iter().map(|b| b.len()).sum::<usize>() - 1;
        let base: u64 = if ctx.thorough {
            if n <= 9 { 4 } else if n <= 11 { 3 } else { 2 }
        } else if n <= 6 {
            4
        } else if n <= 8 {
            3
        } else {
            2
        };
        let plans = base.pow(n as u32);
        let rs = raws(q.len());
        let (nr, nc) = (rs.len() as u64, cfgs.len() as u64);
        run(ctx, plans * nr * nc, &|k| {
            let (init, max) = cfgs[(k % nc) as usize];
            Case {
                pk: q.clone(),
                plan: plan(k / nc / nr, base, n),
                init,
                max,
                raw: rs[(k / nc % nr) as usize].clone(),
                cut: None,
                err: false,
            }
        });
        ctx.count("sequences with every chunking", 1);
    }
}
fn big(n: usize) -> Vec<u8> {
    let pl: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    rm::encode(&publish("big", 1, 77, &pl), Form::Long)
}
/// Larger packets: uniform chunks of every size up to a bound and every one- and two-way split
/// near the interesting places.
fn large(ctx: &Ctx, raw: bool) {
    let tail = small()[2].1.clone();
    let mut sets: Vec<(Vec<Vec<u8>>, Vec<(Option<usize>, Option<usize>)>)> = vec![];
    for n in [100usize, 120, 121, 122, 125, 128, 250, 300] {
        sets.push((vec![tail.clone(), big(n), tail.clone()], vec![(None, None), (Some(1), None), (Some(7), None), (Some(64), Some(400)), (Some(128), None)]));
    }
    for n in [4080usize, 4085, 4086, 4087, 4088, 4090, 5000, 8180, 8185, 9000] {
        sets.push((vec![tail.clone(), big(n), tail.clone()], vec![(None, None)]));
    }
    sets.push((vec![big(16380), big(16390), tail.clone()], vec![(None, None)]));
    if ctx.thorough {
        sets.push((vec![big(70_000), tail.clone(), big(300), big(4000)], vec![(None, None)]));
        sets.push((vec![big(2_097_160), tail.clone()], vec![(None, None)]));
    }
    // lengths of three and four bytes, up to the default maximum
    let ls = [20_000usize, 33_000, 65_535, 65_537, 70_000, 131_073, 262_145, 600_000, 1_048_577, 2_097_150, 2_097_160, 4_194_000];
    let us = [1usize << 30, 4096, 65_537];
    run(ctx, (ls.len() * us.len() * 2) as u64, &|k| {
        let (more, k) = (k % 2 == 1, k / 2);
        let (l, u) = (ls[k as usize / us.len()], us[k as usize % us.len()]);
        let mut pk = vec![tail.clone(), big(l), tail.clone(), big(l / 2), tail.clone()];
        // several in one read, the last of them in part
        if more {
            pk.extend([big(l), big(l), big(l / 3), big(l), tail.clone()]);
        }
        let n: usize = pk.iter().map(|b| b.len()).sum();
        Case { plan: (1..n).map(|i| if i % u == 0 { 3 } else { 0 }).collect(), pk, init: None, max: None, raw: vec![raw], cut: None, err: false }
    });
    for (q, cfgs) in sets {
        let total: usize = q.iter().map(|b| b.len()).sum();
        let mut plans: Vec<Plan> = vec![];
        let mut uni = vec![1, 2, 3, 5, 7, 16, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 1024, 4095, 4096, 4097, 8192];
        if total > 2000 {
            uni.retain(|x| *x >= if total > 20_000 { 4096 } else { 63 });
        }
        for u in uni {
            for k in 1..=3u8 {
                plans.push((1..total).map(|i| if i % u == 0 { k } else { 0 }).collect())
            }
        }
        // splits at and around packet starts, buffer boundaries, and (if small) anywhere
        let mut cuts: Vec<usize> = if total < 400 && ctx.thorough { (1..total).collect() } else { vec![] };
        let mut at = 0;
        for b in &q {
            at += b.len();
            for d in 0..6 {
                cuts.push(at + d);
                cuts.push(at.saturating_sub(d))
            }
        }
        let mut p = 1;
        while p < total {
            for d in -2i64..=2 {
                cuts.push((p as i64 + d).max(1) as usize)
            }
            p *= 2
        }
        cuts.retain(|c| *c > 0 && *c < total);
        cuts.sort();
        cuts.dedup();
        let one = |v: &[usize]| {
            let mut p = vec![0u8; total - 1];
            for c in v {
                p[c - 1] = 3
            }
            p
        };
        for (i, a) in cuts.iter().enumerate() {
            plans.push(one(&[*a]));
            if total < 20_000 {
                for b in &cuts[i + 1..] {
                    plans.push(one(&[*a, *b]))
                }
            }
        }
        let nc = cfgs.len() as u64;
        run(ctx, plans.len() as u64 * nc, &|k| Case {
            pk: q.clone(),
            plan: plans[(k / nc) as usize].clone(),
            init: cfgs[(k % nc) as usize].0,
            max: cfgs[(k % nc) as usize].1,
            raw: vec![raw],
            cut: None,
            err: false,
        });
        ctx.count("large packet sequences", 1);
    }
}

const INITS: [(Option<usize>, Option<usize>); 7] =
    [(None, None), (Some(1), None), (Some(2), None), (Some(3), None), (Some(4), Some(64)), (Some(8), None), (Some(16), None)];

pub fn s01(ctx: &Ctx) {
    ctx.rule("every composition of the byte stream of every short packet sequence into reads, each boundary with and without a not-ready poll and an abandoned read, for several buffer sizes; large packets with uniform chunks and every pair of splits near boundaries; the real PacketStream polled by hand");
    let (l, k) = if ctx.thorough { (13, 5) } else { (10, 4) };
    let mut seqs = sequences(l, k);
    seqs.retain(|q| q.len() <= 3 || q.iter().all(|b| b.len() < 5));
    all_plans(ctx, &seqs, &INITS[..if ctx.thorough { 7 } else { 5 }], &|_| vec![vec![false]]);
    large(ctx, false);
}
pub fn s04(ctx: &Ctx) {
    ctx.rule("as S01 with every assignment of raw and ordinary reads to the packets of the sequence");
    let (l, k) = if ctx.thorough { (12, 4) } else { (9, 3) };
    let seqs = sequences(l, k);
    all_plans(ctx, &seqs, &INITS[..3], &|n| {
        (1..1u32 << n).map(|m| (0..n).map(|i| m >> i & 1 == 1).collect()).collect()
    });
    large(ctx, true);
}
pub fn s02(ctx: &Ctx) {
    ctx.rule("end of stream and connection reset after every byte of every short sequence under every chunking; malformed packets in every position; every pair of initial and maximum buffer size against every packet size, with reading continued after the end");
    let seqs = sequences(if ctx.thorough { 12 } else { 9 }, 3);
    for q in &seqs {
        let n = q.iter().map(|b| b.len()).sum::<usize>();
        for cut in 0..=n {
            let m = cut.saturating_sub(1);
            let base: u64 = if m <= 5 { 4 } else { 2 };
            let plans = base.pow(m as u32);
            run(ctx, plans * 4 * 2, &|k| Case {
                pk: q.clone(),
                plan: plan(k / 8, base, m),
                init: [None, Some(1), Some(2), Some(5)][(k % 4) as usize],
                max: None,
                raw: vec![ctx.thorough && k & 1 == 1],
                cut: Some(cut),
                err: k / 4 % 2 == 1,
            });
        }
    }
    // malformed packets behind good ones
    let bad: Vec<Vec<u8>> = vec![
        vec![0x00, 0x00],
        vec![0xd1, 0x00],
        vec![0x30, 0x00],
        vec![0x30, 0xff, 0xff, 0xff, 0xff, 0x01],
        vec![0x36, 5, 0, 1, b'a', 0, 1],
        vec![0x40, 1, 0],
        vec![0x30, 4, 0, 1, 0xff, 0],
    ];
    for b in bad {
        for pre in [vec![], vec![small()[0].1.clone()], vec![small()[2].1.clone()]] {
            let mut q = pre.clone();
            q.push(b.clone());
            q.push(small()[2].1.clone());
            let n = q.iter().map(|b| b.len()).sum::<usize>() - 1;
            let base = 2u64;
            run(ctx, base.pow(n.min(14) as u32) * 2, &|k| Case {
                pk: q.clone(),
                plan: plan(k / 2, base, n),
                init: [None, Some(1)][(k % 2) as usize],
                max: None,
                raw: vec![false],
                cut: None,
                err: false,
            });
        }
    }
    // configured sizes
    let hi = if ctx.thorough { 40 } else { 26 };
    let mut jobs = vec![];
    for max in 1..=hi {
        for init in (0..=hi + 2).chain([4096]) {
            for size in 2..=hi + 3 {
                for pre in [0usize, 1] {
                    jobs.push((max, init, size, pre))
                }
            }
        }
    }
    run(ctx, jobs.len() as u64 * 4, &|k| {
        let (max, init, size, pre) = jobs[(k / 4) as usize];
        let b = sized(size);
        let mut pk = vec![sized(2); pre];
        pk.push(b);
        pk.push(sized(4));
        pk.push(sized(2));
        let n: usize = pk.iter().map(|b| b.len()).sum::<usize>() - 1;
        let u = [n + 1, 1, 2, 7][(k % 4) as usize];
        Case {
            pk,
            plan: (1..=n).map(|i| if i % u == 0 { 3 } else { 0 }).collect(),
            init: Some(init),
            max: Some(max),
            raw: vec![false],
            cut: None,
            err: false,
        }
    });
    // realistic limits
    let mut cs = vec![];
    for d in -2i64..=2 {
        for u in [1usize << 30, 100_000] {
            cs.push((4 << 20, 4096, ((4i64 << 20) + d) as usize, u))
        }
        cs.push((3_000_000, 4096, (3_000_000 + d) as usize, 1 << 30));
        cs.push((100_000, 1000, (100_000 + d) as usize, 1 << 30));
    }
    for max in [4096usize, 4097, 5000, 8192, 10_000] {
        for init in [1usize, 100, 4096, 8192, 20_000] {
            for d in -2i64..=2 {
                for u in [1usize << 20, 1000, 4096, 4095] {
                    cs.push((max, init, (max as i64 + d) as usize, u))
                }
            }
        }
    }
    run(ctx, cs.len() as u64, &|k| {
        let (max, init, size, u) = cs[k as usize];
        let pk = vec![sized(4), sized(size), sized(4)];
        let n: usize = pk.iter().map(|b| b.len()).sum::<usize>() - 1;
        Case {
            pk,
            plan: (1..=n).map(|i| if i % u == 0 { 3 } else { 0 }).collect(),
            init: Some(init),
            max: Some(max),
            raw: vec![false],
            cut: None,
            err: false,
        }
    });
}
/// A packet of exactly n bytes.
fn sized(n: usize) -> Vec<u8> {
    match n {
        0..=2 => vec![0xd0, 0],
        3 => vec![0xe0, 1, 0],
        4 => vec![0x40, 2, 0, 9],
        5 => vec![0x40, 3, 0, 9, 0],
        6 => vec![0x40, 4, 0, 9, 0, 0],
        _ => {
            for h in 2..=5 {
                let Some(body) = n.checked_sub(h) else { continue };
                if body < 4 {
                    continue;
                }
                let b = rm::encode(&publish("a", 0, 0, &vec![0x40; body - 4]), Form::Long);
                if b.len() == n {
                    return b;
                }
            }
            // no packet has this size (between two lengths of length)
            sized(n - 1)
        }
    }
}

// ------------------------------------------------------------------ writing

fn to_vaux(b: &[u8]) -> Packet {
    reference(b).expect("reference packet")
}
struct WCase {
    pk: Vec<Vec<u8>>,
    /// position of a packet that can not be encoded
    bad: Option<usize>,
    plan: Plan,
    fail: Option<usize>,
    cap: Option<usize>,
}
impl WCase {
    fn show(&self) -> String {
        format!(
            "write {} unencodable at {:?} plan {:?} failing after {:?} window {:?}",
            self.pk.iter().map(|b| hexclip(b)).collect::<Vec<_>>().join("|"),
            self.bad,
            self.plan.iter().take(80).collect::<Vec<_>>(),
            self.fail,
            self.cap
        )
    }
}
fn unencodable() -> Packet {
    let mut p = vaux_mqtt::publish::Publish::default();
    p.topic_name = "t".repeat(70_000);
    p.payload = Some(Bytes::from_static(b"payload"));
    Packet::Publish(p)
}
fn wjudge(c: &WCase) -> Option<(String, String)> {
    let r = catch(|| {
        let (far, near) = streams();
        {
            let mut p = near.tx.lock().unwrap();
            let mut n = 0;
            for k in &c.plan {
                n += 1;
                if *k > 0 {
                    p.wplan.push_back(n);
                    n = 0;
                    if *k > 1 {
                        p.wplan.push_back(0)
                    }
                }
            }
            if let Some(f) = c.fail {
                p.write_err = Some(std::io::ErrorKind::BrokenPipe);
                p.fail_after = f
            }
            if let Some(k) = c.cap {
                p.cap = k
            }
        }
        let mut s = PacketStream::new(AsyncMqttStream(MqttStream::TcpStream(near)), None, None);
        let mut cx = Context::from_waker(Waker::noop());
        let mut seen: Vec<u8> = vec![];
        let mut res = vec![];
        let mut i = 0;
        let mut k = 0;
        while i < c.pk.len() || c.bad == Some(k) {
            let mut p = if c.bad == Some(k) {
                unencodable()
            } else {
                i += 1;
                to_vaux(&c.pk[i - 1])
            };
            k += 1;
            let mut f = pin!(s.write(&mut p));
            let mut polls = 0;
            let r = loop {
                match f.as_mut().poll(&mut cx) {
                    Poll::Ready(r) => break r.map_err(|e| format!("{e:?}")),
                    Poll::Pending => {
                        polls += 1;
                        let mut q = far.rx.lock().unwrap();
                        // the far side reads when the writer waits for room
                        if c.cap.is_some() {
                            seen.extend(q.buf.drain(..))
                        }
                        if polls > 300_000 {
                            break Err("never done".into());
                        }
                    }
                }
            };
            seen.extend(far.rx.lock().unwrap().buf.drain(..));
            res.push((r, seen.len()));
        }
        (res, seen)
    });
    let (res, seen) = match r {
        Err(m) => return Some(("panic".into(), m)),
        Ok(x) => x,
    };
    let mut want: Vec<u8> = vec![];
    let mut i = 0;
    let mut broken = false;
    for (k, (r, n)) in res.iter().enumerate() {
        if c.bad == Some(k) {
            if r.is_ok() {
                return Some(("unencodable-accepted".into(), format!("call {k}: {r:?}")));
            }
            if *n != want.len() {
                return Some(("unencodable-on-wire".into(), format!("{} bytes written", n - want.len())));
            }
            continue;
        }
        let b = &c.pk[i];
        i += 1;
        if let Some(f) = c.fail {
            if want.len() + b.len() > f {
                if r.is_ok() {
                    return Some(("failure-hidden".into(), format!("call {k}: transport failed after {f} bytes, write says {r:?}")));
                }
                if !broken {
                    want.extend(&b[..f - want.len()]);
                }
                broken = true;
                continue;
            }
        }
        want.extend(b);
        if r.is_err() {
            return Some(("write-failed".into(), format!("call {k}: {r:?}")));
        }
        if *n != want.len() {
            return Some(("returned-early".into(), format!("call {k} returned with {n} of {} bytes written", want.len())));
        }
    }
    if seen != want {
        return Some(("wrong-bytes".into(), format!("{} instead of {}", hexclip(&seen), hexclip(&want))));
    }
    None
}
fn wrun(ctx: &Ctx, cases: u64, make: &(dyn Fn(u64) -> WCase + Sync)) {
    const B: u64 = 256;
    par(ctx, cases.div_ceil(B) as usize, |j| {
        if ctx.out_of_time() {
            return;
        }
        let (mut st, mut n) = (0, 0);
        for k in j as u64 * B..(j as u64 * B + B).min(cases) {
            let c = make(k);
            st += c.plan.len() as u64 + 1;
            n += 1;
            mcbase::at(|s| s.push_str(&c.show()));
            if let Some((key, d)) = wjudge(&c) {
                ctx.violation(&key, || format!("{d}\n  {}", c.show()), || c.show());
            }
            if ctx.wants_sample() && k % 97 == 13 {
                ctx.sample(|| c.show())
            }
        }
        ctx.st(st);
        ctx.tr(st);
        ctx.tc(n);
    });
}
pub fn s03(ctx: &Ctx) {
    ctx.rule("every composition of the byte stream of every short packet sequence into accepted writes, each with and without a not-ready poll; transport failure after every byte; an unencodable packet in every position; small windows; large packets with uniform chunks; a TLS connection whose transport stalls");
    crate::e2e::tls_writes(ctx);
    let (l, k) = if ctx.thorough { (12, 4) } else { (9, 3) };
    for q in sequences(l, k) {
        let n = q.iter().map(|b| b.len()).sum::<usize>() - 1;
        let base: u64 = if n <= 9 { 3 } else { 2 };
        wrun(ctx, base.pow(n as u32), &|k| WCase {
            pk: q.clone(),
            bad: None,
            plan: {
                let mut k = k;
                (0..n)
                    .map(|_| {
                        let d = k % base;
                        k /= base;
                        if base == 2 && d == 1 { 2 } else { d as u8 }
                    })
                    .collect()
            },
            fail: None,
            cap: None,
        });
        let plans = [vec![0; n], vec![1; n], vec![2; n]];
        let nb = q.len() as u64 + 1;
        wrun(ctx, (n as u64 + 2) * 3, &|k| WCase {
            pk: q.clone(),
            bad: None,
            plan: plans[(k % 3) as usize].clone(),
            fail: Some((k / 3) as usize),
            cap: None,
        });
        wrun(ctx, nb * 3, &|k| WCase {
            pk: q.clone(),
            bad: Some((k / 3) as usize),
            plan: plans[(k % 3) as usize].clone(),
            fail: None,
            cap: None,
        });
        wrun(ctx, (n as u64 + 1) * 3, &|k| WCase {
            pk: q.clone(),
            bad: None,
            plan: plans[(k % 3) as usize].clone(),
            fail: None,
            cap: Some((k / 3) as usize + 1),
        });
    }
    let sizes: Vec<usize> = if ctx.thorough { vec![100, 128, 1000, 4096, 16_384, 65_600, 300_000, 2_200_000, 4_200_000] } else { vec![100, 128, 1000, 4096, 16_384, 70_000, 300_000, 2_200_000] };
    for s in sizes {
        let q = vec![big(s), sized(4), big(s / 3)];
        let n = q.iter().map(|b| b.len()).sum::<usize>() - 1;
        let us: Vec<usize> = [1usize, 2, 7, 128, 1000, 4096, 65_536].into_iter().filter(|u| n / u < 60_000.min(400_000_000 / n)).collect();
        wrun(ctx, us.len() as u64 * 6, &|k| {
            let u = us[(k / 6) as usize];
            WCase {
                pk: q.clone(),
                bad: None,
                plan: (1..=n).map(|i| if i % u == 0 { 1 + (k % 2) as u8 } else { 0 }).collect(),
                fail: None,
                cap: [None, Some(1000), Some(65_536)][(k / 2 % 3) as usize],
            }
        });
    }
}
