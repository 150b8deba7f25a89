//! The bounded packet space: every subset of optional fields, boundary values of every field in
//! all pairs, and the length boundaries of the variable-length encodings.
use refmqtt::*;

pub struct Gen {
    pub name: &'static str,
    pub n: usize,
    pub f: Box<dyn Fn(usize) -> P + Sync + Send>,
}

/// One distinct value per property, so that two swapped fields show.
pub fn dflt(id: u8) -> PV {
    match prop_info(id).unwrap().0 {
        T::B => PV::B(1),
        T::U16 => PV::U16(0x0100 + id as u16),
        T::U32 => PV::U32(0x0a0b_0000 + id as u32),
        T::Var => PV::Var(300 + id as u32),
        T::Str => PV::Str(format!("s{id:x}")),
        T::Bin => PV::Bin(vec![id, 0, 0xff]),
        T::Pair => PV::Pair("k".into(), "v".into()),
    }
}

/// Boundary values of a property; each entry is the list of properties to add.
pub fn vals(id: u8) -> Vec<Props> {
    let one = |v: PV| vec![Prop { id, v }];
    let l = "x".repeat(130);
    match prop_info(id).unwrap().0 {
        T::B => vec![one(PV::B(0)), one(PV::B(1))],
        T::U16 => vec![one(PV::U16(1)), one(PV::U16(0x00ff)), one(PV::U16(0x1234)), one(PV::U16(0xffff))],
        T::U32 => vec![
            one(PV::U32(1)),
            one(PV::U32(0x0000_ff00)),
            one(PV::U32(0x1234_5678)),
            one(PV::U32(u32::MAX)),
        ],
        T::Var => [1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455].iter().map(|v| one(PV::Var(*v))).collect(),
        T::Str => vec![one(PV::Str("".into())), one(PV::Str("a".into())), one(PV::Str("é/日本𝄞".into())), one(PV::Str(l))],
        T::Bin => vec![one(PV::Bin(vec![0])), one(PV::Bin(vec![0xff, 0x26, 0x00])), one(PV::Bin(l.into_bytes()))],
        T::Pair => {
            let p = |a: &str, b: &str| Prop { id, v: PV::Pair(a.into(), b.into()) };
            vec![
                vec![p("", "")],
                vec![p("a", "b")],
                vec![p("a", "1"), p("a", "2"), p("a", "1")],
                vec![p("a", "1"), p("b", "2")],
                vec![p("k", "v1"), p("é", ""), p("k", "v2"), p(&l, &l)],
            ]
        }
    }
}

/// Property lists for a packet: all subsets; all pairs of boundary values.
pub fn prop_lists(pkt: u8) -> Vec<Props> {
    let ids = props_for(pkt);
    let mut out: Vec<Props> = vec![];
    for m in 0u32..(1 << ids.len()) {
        out.push(
            ids.iter()
                .enumerate()
                .filter(|(i, _)| m & (1 << i) != 0)
                .map(|(_, id)| Prop { id: *id, v: dflt(*id) })
                .collect(),
        );
    }
    for (i, a) in ids.iter().enumerate() {
        for va in vals(*a) {
            out.push(va.clone());
            for b in &ids[i + 1..] {
                for vb in vals(*b) {
                    let mut p = va.clone();
                    p.extend(vb);
                    out.push(p);
                }
            }
        }
    }
    out
}
/// Short list: none, each single property (all boundary values), all properties.
pub fn prop_short(pkt: u8) -> Vec<Props> {
    let ids = props_for(pkt);
    let mut out = vec![vec![]];
    for id in &ids {
        out.extend(vals(*id));
    }
    out.push(ids.iter().map(|id| Prop { id: *id, v: dflt(*id) }).collect());
    out
}

fn strs() -> Vec<String> {
    vec!["a".into(), "a/b".into(), "/".into(), "é/日本𝄞".into(), "t".repeat(127), "t".repeat(128), "t".repeat(65535)]
}
fn bins() -> Vec<Vec<u8>> {
    vec![vec![], vec![0], b"hello".to_vec(), vec![0xff; 127], vec![0x26; 128], vec![7; 65535]]
}

fn prod(dims: &[usize]) -> usize {
    dims.iter().product()
}
fn split(mut i: usize, dims: &[usize]) -> Vec<usize> {
    dims.iter()
        .map(|d| {
            let r = i % d;
            i /= d;
            r
        })
        .collect()
}

pub fn space(thorough: bool) -> Vec<Gen> {
    let mut g: Vec<Gen> = vec![];
    let pids = [1u16, 0x00ff, 0x0100, 0x1234, 0xffff];

    // CONNECT: property lists x will/credential shapes
    let cl = prop_lists(1);
    let shapes: Vec<(Option<Will>, Option<String>, Option<Vec<u8>>)> = {
        let w = |t: &str, p: &[u8], q: u8, r: bool| {
            Some(Will { props: vec![], topic: t.into(), payload: p.to_vec(), qos: q, retain: r })
        };
        vec![
            (None, None, None),
            (None, Some("user".into()), Some(b"pw".to_vec())),
            (w("will/t", b"gone", 1, true), Some("u".into()), None),
            (w("w", b"", 2, false), None, Some(vec![])),
        ]
    };
    let d = vec![cl.len(), shapes.len(), 2];
    {
        let d2 = d.clone();
        g.push(Gen {
            name: "connect/properties",
            n: prod(&d),
            f: Box::new(move |i| {
                let x = split(i, &d2);
                let (w, u, p) = shapes[x[1]].clone();
                P::Connect {
                    clean: x[2] == 1,
                    keep_alive: 0x0102,
                    props: cl[x[0]].clone(),
                    client_id: "cid".into(),
                    will: w,
                    username: u,
                    password: p,
                }
            }),
        });
    }
    // CONNECT: will property lists x qos x retain
    {
        let wl = prop_lists(0);
        let d = vec![wl.len(), 3, 2];
        let n = prod(&d);
        g.push(Gen {
            name: "connect/will-properties",
            n,
            f: Box::new(move |i| {
                let x = split(i, &d);
                P::Connect {
                    clean: false,
                    keep_alive: 60,
                    props: vec![],
                    client_id: "".into(),
                    will: Some(Will {
                        props: wl[x[0]].clone(),
                        topic: "wt".into(),
                        payload: b"payload".to_vec(),
                        qos: x[1] as u8,
                        retain: x[2] == 1,
                    }),
                    username: None,
                    password: None,
                }
            }),
        });
    }
    // CONNECT: value boundaries of every payload field, full product
    {
        let ids: Vec<String> = vec!["".into(), "c".into(), "é日".into(), "c".repeat(65535)];
        let wts: Vec<Option<(String, Vec<u8>)>> = std::iter::once(None)
            .chain(["w".to_string(), "w".repeat(65535)].into_iter().flat_map(|t| {
                bins().into_iter().map(move |b| Some((t.clone(), b)))
            }))
            .collect();
        let us: Vec<Option<String>> = vec![None, Some("".into()), Some("u".into()), Some("é".repeat(100)), Some("u".repeat(65535))];
        let ps: Vec<Option<Vec<u8>>> = std::iter::once(None).chain(bins().into_iter().map(Some)).collect();
        let kas = [0u16, 1, 0x0102, 0xffff];
        let d = vec![ids.len(), wts.len(), us.len(), ps.len(), kas.len()];
        let n = prod(&d);
        g.push(Gen {
            name: "connect/payload",
            n,
            f: Box::new(move |i| {
                let x = split(i, &d);
                P::Connect {
                    clean: true,
                    keep_alive: kas[x[4]],
                    props: vec![],
                    client_id: ids[x[0]].clone(),
                    will: wts[x[1]].clone().map(|(t, p)| Will { props: vec![], topic: t, payload: p, qos: 1, retain: false }),
                    username: us[x[2]].clone(),
                    password: ps[x[3]].clone(),
                }
            }),
        });
    }
    // CONNACK
    {
        let l = prop_lists(2);
        let rs: Vec<(bool, u8)> = if thorough { vec![(false, 0), (true, 0), (false, 0x87)] } else { vec![(true, 0)] };
        let d = vec![l.len(), rs.len()];
        let n = prod(&d);
        g.push(Gen {
            name: "connack/properties",
            n,
            f: Box::new(move |i| {
                let x = split(i, &d);
                P::ConnAck { sp: rs[x[1]].0, reason: rs[x[1]].1, props: l[x[0]].clone() }
            }),
        });
        let rs: Vec<u8> = (0..=255).filter(|r| reason_ok(2, *r)).collect();
        let s = prop_short(2);
        let d = vec![rs.len(), s.len()];
        let n = prod(&d);
        g.push(Gen {
            name: "connack/reasons",
            n,
            f: Box::new(move |i| {
                let x = split(i, &d);
                P::ConnAck { sp: false, reason: rs[x[0]], props: s[x[1]].clone() }
            }),
        });
    }
    // PUBLISH
    {
        let l = prop_lists(3);
        let d = vec![l.len(), 3, 2, 2, 2];
        let n = prod(&d);
        g.push(Gen {
            name: "publish/properties",
            n,
            f: Box::new(move |i| {
                let x = split(i, &d);
                let q = x[1] as u8;
                P::Publish {
                    dup: x[2] == 1 && q > 0,
                    qos: q,
                    retain: x[3] == 1,
                    topic: "a/b".into(),
                    pid: (q > 0).then_some(0x1234),
                    props: l[x[0]].clone(),
                    payload: if x[4] == 1 { b"payload".to_vec() } else { vec![] },
                }
            }),
        });
        let ts = strs();
        let mut bs = bins();
        for n in [100, 16370, 16384, 2097140, 2097152, 2097160] {
            bs.push(vec![b'p'; n]);
        }
        let s = prop_short(3);
        let d = vec![ts.len(), bs.len(), pids.len(), 3, if thorough { s.len() } else { 3 }];
        let n = prod(&d);
        g.push(Gen {
            name: "publish/values",
            n,
            f: Box::new(move |i| {
                let x = split(i, &d);
                let q = x[3] as u8;
                P::Publish {
                    dup: false,
                    qos: q,
                    retain: false,
                    topic: ts[x[0]].clone(),
                    pid: (q > 0).then_some(pids[x[2]]),
                    props: s[x[4] % s.len()].clone(),
                    payload: bs[x[1]].clone(),
                }
            }),
        });
        // every remaining length around the variable byte integer boundaries
        let mut lens: Vec<usize> = (110..140).chain(16370..16400).chain(2097140..2097165).collect();
        if thorough {
            lens.push(268435455 - 4);
        }
        let n = lens.len();
        g.push(Gen {
            name: "publish/lengths",
            n,
            f: Box::new(move |i| P::Publish {
                dup: false,
                qos: 0,
                retain: false,
                topic: "t".into(),
                pid: None,
                props: vec![],
                payload: vec![0x5a; lens[i]],
            }),
        });
        // property section lengths around the boundaries
        let lens: Vec<usize> = (100..140).chain(16360..16400).collect();
        let n = lens.len();
        g.push(Gen {
            name: "publish/property-lengths",
            n,
            f: Box::new(move |i| P::Publish {
                dup: false,
                qos: 1,
                retain: false,
                topic: "t".into(),
                pid: Some(9),
                props: vec![Prop { id: 3, v: PV::Str("c".repeat(lens[i])) }, Prop { id: 0x26, v: PV::Pair("k".into(), "v".into()) }],
                payload: b"x".to_vec(),
            }),
        });
    }
    // PUBACK PUBREC PUBREL PUBCOMP
    {
        let l = prop_lists(4);
        let d = vec![4, REASONS.len(), pids.len(), l.len()];
        let n = prod(&d);
        g.push(Gen {
            name: "acks",
            n,
            f: Box::new(move |i| {
                let x = split(i, &d);
                let kind = 4 + x[0] as u8;
                let r = REASONS[x[1]];
                let r = if reason_ok(kind, r) { r } else { 0 };
                P::Ack { kind, pid: pids[x[2]], reason: r, props: l[x[3]].clone() }
            }),
        });
    }
    // SUBSCRIBE: all subscription option bytes, up to 3 filters
    {
        let l = prop_lists(8);
        let opts: Vec<u8> = (0u8..64).filter(|o| o & 3 != 3 && (o >> 4) & 3 != 3).collect();
        let fs: Vec<String> = vec!["a".into(), "+/b/#".into(), "f".repeat(200), "é".into()];
        let d = vec![opts.len(), opts.len(), fs.len(), 3];
        let n = prod(&d);
        let (o2, f2) = (opts.clone(), fs.clone());
        g.push(Gen {
            name: "subscribe/options",
            n,
            f: Box::new(move |i| {
                let x = split(i, &d);
                let mut filters = vec![(f2[x[2]].clone(), o2[x[0]])];
                if x[3] > 0 {
                    filters.push(("second/+".into(), o2[x[1]]))
                }
                if x[3] > 1 {
                    filters.insert(0, ("#".into(), 0))
                }
                P::Subscribe { pid: 0x1234, props: vec![], filters }
            }),
        });
        let d = vec![l.len(), pids.len(), opts.len()];
        let n = prod(&d);
        g.push(Gen {
            name: "subscribe/properties",
            n,
            f: Box::new(move |i| {
                let x = split(i, &d);
                P::Subscribe { pid: pids[x[1]], props: l[x[0]].clone(), filters: vec![("f/#".into(), opts[x[2]])] }
            }),
        });
    }
    // SUBACK / UNSUBACK
    for ty in [9u8, 11] {
        let l = prop_lists(ty);
        let rs: Vec<u8> = (0..=255).filter(|r| reason_ok(ty, *r)).collect();
        let d = vec![l.len(), rs.len(), rs.len(), 3, pids.len()];
        let n = prod(&d);
        g.push(Gen {
            name: if ty == 9 { "suback" } else { "unsuback" },
            n,
            f: Box::new(move |i| {
                let x = split(i, &d);
                let mut reasons = vec![rs[x[1]]];
                if x[3] > 0 {
                    reasons.push(rs[x[2]])
                }
                if x[3] > 1 {
                    reasons.extend(std::iter::repeat_n(0u8, 130))
                }
                let (pid, props) = (pids[x[4]], l[x[0]].clone());
                if ty == 9 { P::SubAck { pid, props, reasons } } else { P::UnsubAck { pid, props, reasons } }
            }),
        });
    }
    // UNSUBSCRIBE
    {
        let l = prop_lists(10);
        let fs = strs();
        let d = vec![l.len(), fs.len(), fs.len(), 3, pids.len()];
        let n = prod(&d);
        g.push(Gen {
            name: "unsubscribe",
            n,
            f: Box::new(move |i| {
                let x = split(i, &d);
                let mut filters = vec![fs[x[1]].clone()];
                if x[3] > 0 {
                    filters.push(fs[x[2]].clone())
                }
                if x[3] > 1 {
                    filters.push("+".into())
                }
                P::Unsubscribe { pid: pids[x[4]], props: l[x[0]].clone(), filters }
            }),
        });
    }
    // long lists
    {
        let lens = [127usize, 128, 255, 256, 257, 300, 16383, 16400];
        let n = lens.len() * 12;
        g.push(Gen {
            name: "long lists",
            n,
            f: Box::new(move |i| {
                let n = lens[i / 12];
                let code = |ok: &[u8]| (0..n).map(|j| ok[j % ok.len()]).collect::<Vec<u8>>();
                let ups = || (0..n).map(|j| Prop { id: 0x26, v: PV::Pair(format!("k{}", j % 7), format!("{j}")) }).collect::<Props>();
                let f = || (0..n).map(|j| format!("f/{j}")).collect::<Vec<String>>();
                match i % 12 {
                    0 => P::SubAck { pid: 1, props: vec![], reasons: code(&[0, 1, 0x80]) },
                    1 => P::UnsubAck { pid: 1, props: vec![], reasons: code(&[0, 0x11]) },
                    2 => P::Subscribe { pid: 1, props: vec![], filters: f().into_iter().enumerate().map(|(i, x)| (x, (i % 3) as u8)).collect() },
                    3 => P::Unsubscribe { pid: 1, props: vec![], filters: f() },
                    4 => P::SubAck { pid: 1, props: ups(), reasons: vec![0] },
                    5 => P::UnsubAck { pid: 1, props: ups(), reasons: vec![0] },
                    6 => P::Subscribe { pid: 1, props: ups(), filters: vec![("a".into(), 0)] },
                    7 => P::Unsubscribe { pid: 1, props: ups(), filters: vec!["a".into()] },
                    8 => P::Publish { dup: false, qos: 1, retain: false, topic: "t".into(), pid: Some(1), props: ups(), payload: b"p".to_vec() },
                    9 => P::Connect {
                        clean: true,
                        keep_alive: 0,
                        props: ups(),
                        client_id: "c".into(),
                        will: Some(Will { props: ups(), topic: "w".into(), payload: vec![], qos: 0, retain: false }),
                        username: None,
                        password: None,
                    },
                    10 => P::ConnAck { sp: false, reason: 0, props: ups() },
                    _ => P::Disconnect { reason: 0, props: ups() },
                }
            }),
        });
    }
    // DISCONNECT, PING
    {
        let l = prop_lists(14);
        let rs: Vec<u8> = (0..=255).filter(|r| reason_ok(14, *r)).collect();
        let d = vec![l.len(), rs.len()];
        let n = prod(&d);
        g.push(Gen {
            name: "disconnect",
            n,
            f: Box::new(move |i| {
                let x = split(i, &d);
                P::Disconnect { reason: rs[x[1]], props: l[x[0]].clone() }
            }),
        });
        g.push(Gen { name: "ping", n: 2, f: Box::new(|i| if i == 0 { P::PingReq } else { P::PingResp }) });
    }
    g
}

/// Small representative packets, one per shape: base of the mutation neighbourhood.
pub fn corpus() -> Vec<P> {
    let mut v = vec![];
    let all = |pkt: u8| -> Props { props_for(pkt).iter().map(|id| Prop { id: *id, v: dflt(*id) }).collect() };
    let c = |props: Props, will: Option<Will>, u: Option<&str>, p: Option<&[u8]>| P::Connect {
        clean: true,
        keep_alive: 60,
        props,
        client_id: "c1".into(),
        will,
        username: u.map(|s| s.into()),
        password: p.map(|s| s.to_vec()),
    };
    v.push(c(vec![], None, None, None));
    v.push(c(vec![], None, Some("u"), Some(b"p")));
    v.push(c(all(1), None, None, None));
    v.push(c(vec![], Some(Will { props: vec![], topic: "w".into(), payload: b"x".to_vec(), qos: 1, retain: true }), None, None));
    v.push(c(
        vec![Prop { id: 0x11, v: PV::U32(9) }],
        Some(Will { props: all(0), topic: "w/t".into(), payload: vec![], qos: 2, retain: false }),
        Some("é"),
        Some(b""),
    ));
    v.push(P::ConnAck { sp: false, reason: 0, props: vec![] });
    v.push(P::ConnAck { sp: true, reason: 0, props: all(2) });
    v.push(P::ConnAck { sp: false, reason: 0x97, props: vec![Prop { id: 0x1f, v: PV::Str("no".into()) }] });
    for q in 0..3u8 {
        let pb = |props: Props, payload: &[u8]| P::Publish {
            dup: q > 0,
            qos: q,
            retain: q == 1,
            topic: "a/b".into(),
            pid: (q > 0).then_some(7),
            props,
            payload: payload.to_vec(),
        };
        v.push(pb(vec![], b""));
        v.push(pb(vec![], b"hi"));
        v.push(pb(all(3), b"hi"));
        for id in props_for(3) {
            v.push(pb(vec![Prop { id, v: dflt(id) }], b""));
        }
    }
    for kind in 4..8u8 {
        v.push(P::Ack { kind, pid: 7, reason: 0, props: vec![] });
        let r = if kind < 6 { 0x10 } else { 0x92 };
        v.push(P::Ack { kind, pid: 7, reason: r, props: vec![] });
        v.push(P::Ack { kind, pid: 7, reason: r, props: all(kind) });
    }
    v.push(P::Subscribe { pid: 5, props: vec![], filters: vec![("a".into(), 1)] });
    v.push(P::Subscribe { pid: 5, props: all(8), filters: vec![("+/x".into(), 0x2d), ("#".into(), 2)] });
    v.push(P::SubAck { pid: 5, props: vec![], reasons: vec![1] });
    v.push(P::SubAck { pid: 5, props: all(9), reasons: vec![0, 0x80, 2] });
    v.push(P::Unsubscribe { pid: 5, props: vec![], filters: vec!["a".into()] });
    v.push(P::Unsubscribe { pid: 5, props: all(10), filters: vec!["a/+".into(), "#".into()] });
    v.push(P::UnsubAck { pid: 5, props: vec![], reasons: vec![0x11] });
    v.push(P::UnsubAck { pid: 5, props: all(11), reasons: vec![0, 0x80] });
    v.push(P::PingReq);
    v.push(P::PingResp);
    v.push(P::Disconnect { reason: 0, props: vec![] });
    v.push(P::Disconnect { reason: 4, props: vec![] });
    v.push(P::Disconnect { reason: 0x8e, props: all(14) });
    v
}
