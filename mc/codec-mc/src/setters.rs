//! C07: sequences of calls of the constructors and setters of the packets, each compared with a reference packet.
use crate::conv::*;
use crate::{dec, enc};
use mcbase::*;
use refmqtt::*;
use vaux_mqtt::property::UserProperty;
use vaux_mqtt::publish::PayloadFormat;
use vaux_mqtt::subscribe::RetainHandling;
use vaux_mqtt::{Connect, Packet, PubAck, PubComp, PubRec, PubRel, Publish, QoSLevel, Reason, Subscribe, SubscriptionFilter, WillMessage};

/// Performs one call on both; what is wrong with its result.
type Op = Box<dyn Fn(&mut P, &mut Packet) -> Option<String> + Sync + Send>;
pub struct Kind {
    pub name: &'static str,
    pub starts: Vec<(String, P, Packet)>,
    pub ops: Vec<(String, Op)>,
    /// calls in a row, quick and thorough
    pub depth: (usize, usize),
}

fn props(p: &mut P) -> &mut Props {
    match p {
        P::Connect { props, .. }
        | P::ConnAck { props, .. }
        | P::Publish { props, .. }
        | P::Ack { props, .. }
        | P::Subscribe { props, .. }
        | P::SubAck { props, .. }
        | P::Unsubscribe { props, .. }
        | P::UnsubAck { props, .. }
        | P::Disconnect { props, .. }
        | P::Auth { props, .. } => props,
        _ => panic!(),
    }
}
fn set(p: &mut P, id: u8, v: Option<PV>) {
    let l = props(p);
    l.retain(|x| x.id != id);
    if let Some(v) = v {
        l.push(Prop { id, v })
    }
}
fn user(v: &mut Packet) -> &mut UserProperty {
    match v {
        Packet::Connect(c) => &mut c.user_properties,
        Packet::ConnAck(c) => &mut c.user_properties,
        Packet::Publish(c) => &mut c.user_properties,
        Packet::Subscribe(c) => &mut c.user_props,
        Packet::SubAck(c) => &mut c.user_properties,
        Packet::Unsubscribe(c) => &mut c.props,
        Packet::UnsubAck(c) => &mut c.user_properties,
        Packet::Disconnect(c) => &mut c.user_properties,
        _ => panic!(),
    }
}
/// Payload format 0 and session expiry 0 say what their absence says.
fn plain(p: P) -> P {
    let mut p = canon(p);
    let cut = |l: &mut Props| l.retain(|x| x.v != PV::B(0) || x.id != 1);
    if !matches!(p, P::PingReq | P::PingResp) {
        cut(props(&mut p));
        props(&mut p).retain(|x| x.id != 0x11 || x.v != PV::U32(0));
    }
    if let P::Connect { will: Some(w), .. } = &mut p {
        cut(&mut w.props);
    }
    p
}
fn complete(p: &P) -> bool {
    match p {
        P::Publish { qos, pid, .. } => *qos == 0 || pid.is_some(),
        P::Subscribe { filters, .. } => !filters.is_empty(),
        P::Unsubscribe { filters, .. } => !filters.is_empty(),
        _ => true,
    }
}
/// What is wrong with this packet after the calls made so far.
fn look(p: &P, v: &Packet) -> Option<(String, String)> {
    if let Some(d) = accessor_diff(p, v) {
        return Some(("accessor".into(), d));
    }
    if !matches!(p, P::PingReq | P::PingResp | P::Ack { .. }) {
        let u = user(&mut v.clone()).clone();
        let want = pairs(p);
        let keys: std::collections::BTreeSet<&String> = want.iter().map(|x| x.0).collect();
        if u.is_empty() != want.is_empty() || u.len() != keys.len() {
            return Some(("user-properties".into(), format!("len {} empty {}, but {want:?} were added", u.len(), u.is_empty())));
        }
        for k in keys {
            let w: Vec<String> = want.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect();
            if u.get(k) != Some(&w) || u.iter().filter(|x| x.0 == k).map(|x| x.1.clone()).collect::<Vec<_>>() != [w.clone()] {
                return Some(("user-properties".into(), format!("{k} has {:?}, but {w:?} were added", u.get(k))));
            }
        }
    }
    if !complete(p) {
        return None;
    }
    let want = plain(p.clone());
    match enc(v) {
        Err(m) => Some(("encode-panic".into(), m)),
        Ok(Err(m)) => Some(("encode-error".into(), format!("{m} for {want:?}"))),
        Ok(Ok(b)) => match refmqtt::decode(&b) {
            Ok((q, g)) if plain(q.clone()) == want => {
                g.filter(|_| refmqtt::decode(&refmqtt::encode(p, Form::Short)).is_ok_and(|x| x.1.is_none())).map(|g| ("encodes-forbidden".into(), g.to_string()))
            }
            o => Some(("encodes-other".into(), clip(&format!("{want:?} is encoded as {} = {o:?}", hexclip(&b)), 1000))),
        },
    }
}
fn pairs(p: &P) -> Vec<(&String, &String)> {
    let l = match p {
        P::Connect { props, .. }
        | P::ConnAck { props, .. }
        | P::Publish { props, .. }
        | P::Subscribe { props, .. }
        | P::SubAck { props, .. }
        | P::Unsubscribe { props, .. }
        | P::UnsubAck { props, .. }
        | P::Disconnect { props, .. } => props,
        _ => return vec![],
    };
    l.iter()
        .filter_map(|x| match &x.v {
            PV::Pair(a, b) => Some((a, b)),
            _ => None,
        })
        .collect()
}

/// what cannot be decoded is reported by C05
fn decoded(p: &P) -> Option<Packet> {
    match dec(&refmqtt::encode(p, Form::Short)) {
        Ok(Ok(Some((v, _)))) => Some(v),
        _ => None,
    }
}
fn both(name: &str, p: &P) -> Vec<(String, P, Packet)> {
    let mut v = vec![];
    if let Some(d) = decoded(p) {
        v.push((format!("{name} received"), p.clone(), d))
    }
    if let Some(b) = build(p) {
        v.push((format!("{name} built"), p.clone(), b))
    }
    v
}
/// expectation of a call that may fail
fn ck(what: &str, want: bool, got: Result<(), String>) -> Option<String> {
    (want != got.is_ok()).then(|| format!("{what}: {got:?}"))
}

macro_rules! op {
    ($k:ident, $name:expr, |$p:pat_param, $v:ident : $var:path| $body:block) => {
        $k.push((
            $name.to_string(),
            Box::new(move |p: &mut P, v: &mut Packet| {
                let $var($v) = v else { panic!("type") };
                let $p = p else { panic!("type") };
                $body
            }) as Op,
        ))
    };
}
fn user_ops(k: &mut Vec<(String, Op)>) {
    for (a, b) in [("k", "1"), ("k", "2"), ("j", "1")] {
        k.push((
            format!("user property {a}={b}"),
            Box::new(move |p, v| {
                user(v).add(a.into(), b.into());
                props(p).push(Prop { id: 0x26, v: PV::Pair(a.into(), b.into()) });
                None
            }),
        ));
    }
    k.push((
        "clear_codec(k)".into(),
        Box::new(|p, v| {
            user(v).clear_codec("k");
            props(p).retain(|x| !matches!(&x.v, PV::Pair(a, _) if a == "k"));
            None
        }),
    ));
    k.push((
        "clear()".into(),
        Box::new(|p, v| {
            user(v).clear();
            props(p).retain(|x| !matches!(&x.v, PV::Pair(..)));
            None
        }),
    ));
}
fn all(pkt: u8) -> Props {
    props_for(pkt).iter().map(|id| Prop { id: *id, v: crate::space::dflt(*id) }).collect()
}

fn wills() -> Vec<(Will, WillMessage)> {
    let full = || {
        let mut u = UserProperty::new();
        u.add("a".into(), "1".into());
        u.add("a".into(), "2".into());
        WillMessage::new("w/3".into(), b"three", QoSLevel::AtMostOnce, true)
            .with_delay(7)
            .with_payload_format(PayloadFormat::Utf8)
            .with_message_expiry(9)
            .with_content_type("ct".into())
            .with_response_topic("r/t".into())
            .with_correlation_data(vec![0, 9])
            .with_user_properties(u)
    };
    let pr = |id, v| Prop { id, v };
    vec![
        (
            Will { props: vec![], topic: "w/1".into(), payload: b"one".to_vec(), qos: 1, retain: true },
            WillMessage::new("w/1".into(), b"one", QoSLevel::AtLeastOnce, true),
        ),
        (
            Will { props: vec![], topic: "w/2".into(), payload: vec![], qos: 2, retain: false },
            WillMessage::new("w/2".into(), b"", QoSLevel::ExactlyOnce, false),
        ),
        (
            Will {
                props: vec![
                    pr(0x18, PV::U32(7)),
                    pr(1, PV::B(1)),
                    pr(2, PV::U32(9)),
                    pr(3, PV::Str("ct".into())),
                    pr(8, PV::Str("r/t".into())),
                    pr(9, PV::Bin(vec![0, 9])),
                    pr(0x26, PV::Pair("a".into(), "1".into())),
                    pr(0x26, PV::Pair("a".into(), "2".into())),
                ],
                topic: "w/3".into(),
                payload: b"three".to_vec(),
                qos: 0,
                retain: true,
            },
            full(),
        ),
        (
            Will { props: vec![pr(0x18, PV::U32(0)), pr(2, PV::U32(u32::MAX))], topic: "w/3".into(), payload: b"4".to_vec(), qos: 0, retain: false },
            WillMessage::new("w/3".into(), b"4", QoSLevel::AtMostOnce, false)
                .with_delay(3)
                .with_message_expiry(u32::MAX)
                .with_payload_format(PayloadFormat::Utf8)
                .with_payload_format(PayloadFormat::Bin)
                .with_delay(0),
        ),
    ]
}

pub fn kinds() -> Vec<Kind> {
    let mut out = vec![];
    // ---------------------------------------------------------------- CONNECT
    {
        let mut k: Vec<(String, Op)> = vec![];
        for b in [true, false] {
            op!(k, format!("set_clean_start({b})"), |P::Connect { clean, .. }, c: Packet::Connect| {
                c.set_clean_start(b);
                *clean = b;
                None
            });
        }
        for u in [Some("user"), Some(""), None] {
            op!(k, format!("set_username({u:?})"), |P::Connect { username, .. }, c: Packet::Connect| {
                c.set_username(u.map(|s| s.to_string()));
                *username = u.map(|s| s.to_string());
                None
            });
        }
        for u in [Some(&b"\x00pw"[..]), Some(&b""[..]), None] {
            op!(k, format!("set_password({u:?})"), |P::Connect { password, .. }, c: Packet::Connect| {
                c.set_password(u.map(|s| s.to_vec()));
                *password = u.map(|s| s.to_vec());
                None
            });
        }
        for n in [0, 1, u32::MAX - 1, u32::MAX] {
            k.push((
                format!("set_session_expiry_interval({n})"),
                Box::new(move |p, v| {
                    let Packet::Connect(c) = v else { panic!() };
                    c.set_session_expiry_interval(n);
                    // 0 may be left out
                    set(p, 0x11, (n > 0 || c.session_expiry_interval.is_some()).then_some(PV::U32(n)));
                    None
                }),
            ));
        }
        for (i, (w, m)) in wills().into_iter().enumerate() {
            op!(k, format!("set_will_message(#{i})"), |P::Connect { will, .. }, c: Packet::Connect| {
                c.set_will_message(m.clone());
                *will = Some(w.clone());
                match c.will_message() {
                    Some(x) if x == m => None,
                    x => Some(format!("{x:?} instead of {m:?}")),
                }
            });
        }
        op!(k, "client_id =", |P::Connect { client_id, .. }, c: Packet::Connect| {
            c.client_id = "other".into();
            *client_id = "other".into();
            None
        });
        user_ops(&mut k);
        let fresh = |w: Option<Will>, mut c: Connect| {
            c.client_id = "c".into();
            (
                P::Connect { clean: false, keep_alive: 60, props: vec![], client_id: "c".into(), will: w, username: None, password: None },
                Packet::Connect(Box::new(c)),
            )
        };
        let mut starts = vec![];
        let (p, v) = fresh(None, Connect::new());
        starts.push(("new".to_string(), p, v));
        for (i, (w, m)) in wills().into_iter().enumerate() {
            let (p, v) = fresh(Some(w), Connect::from(m));
            starts.push((format!("from will #{i}"), p, v));
        }
        let full = P::Connect {
            clean: true,
            keep_alive: 1,
            props: all(1),
            client_id: "c1".into(),
            will: Some(Will { props: all(0), topic: "w".into(), payload: b"x".to_vec(), qos: 2, retain: true }),
            username: Some("é".into()),
            password: Some(vec![0]),
        };
        starts.extend(both("full", &full));
        let mut zero = all(1);
        zero.iter_mut().for_each(|x| {
            if x.id == 0x11 {
                x.v = PV::U32(0)
            }
        });
        let mut w = all(0);
        w.iter_mut().for_each(|x| {
            if x.id == 1 {
                x.v = PV::B(0)
            }
        });
        starts.extend(both(
            "zero",
            &P::Connect {
                clean: false,
                keep_alive: 0,
                props: zero,
                client_id: "".into(),
                will: Some(Will { props: w, topic: "w".into(), payload: vec![], qos: 0, retain: false }),
                username: Some("".into()),
                password: Some(vec![]),
            },
        ));
        out.push(Kind { name: "connect", starts, ops: k, depth: (4, 5) });
    }
    // ---------------------------------------------------------------- CONNACK
    {
        let mut k: Vec<(String, Op)> = vec![];
        for b in [true, false] {
            op!(k, format!("set_session_present({b})"), |P::ConnAck { sp, .. }, c: Packet::ConnAck| {
                c.set_session_present(b);
                *sp = b;
                None
            });
        }
        for n in [0, 1, u32::MAX] {
            k.push((
                format!("set_session_expiry({n})"),
                Box::new(move |p, v| {
                    let Packet::ConnAck(c) = v else { panic!() };
                    c.set_session_expiry(n);
                    set(p, 0x11, (n > 0 || c.session_expiry_interval.is_some()).then_some(PV::U32(n)));
                    None
                }),
            ));
        }
        for n in [1, 0x1234, u16::MAX] {
            k.push((
                format!("set_server_keep_alive({n})"),
                Box::new(move |p, v| {
                    let Packet::ConnAck(c) = v else { panic!() };
                    c.set_server_keep_alive(n);
                    set(p, 0x13, Some(PV::U16(n)));
                    None
                }),
            ));
        }
        for n in [0, 1, 0x1234, u16::MAX] {
            k.push((
                format!("set_receive_max({n})"),
                Box::new(move |p, v| {
                    let Packet::ConnAck(c) = v else { panic!() };
                    c.set_receive_max(n);
                    // 0 is a protocol error and clears it
                    set(p, 0x21, (n > 0).then_some(PV::U16(n)));
                    (c.receive_max() != (n > 0).then_some(n)).then(|| format!("receive_max() is {:?}", c.receive_max()))
                }),
            ));
        }
        user_ops(&mut k);
        let mut starts = both("empty", &P::ConnAck { sp: false, reason: 0, props: vec![] });
        starts.extend(both("full", &P::ConnAck { sp: true, reason: 0, props: all(2) }));
        out.push(Kind { name: "connack", starts, ops: k, depth: (4, 6) });
    }
    // ---------------------------------------------------------------- PUBLISH
    {
        let mut k: Vec<(String, Op)> = vec![];
        for with in [false, true] {
            let n = if with { "with" } else { "set" };
            for q in 0..3u8 {
                op!(k, format!("{n}_qos({q})"), |P::Publish { qos: mq, dup, pid, .. }, c: Packet::Publish| {
                    if with {
                        *c = c.clone().with_qos(qos(q))
                    } else {
                        c.set_qos(qos(q))
                    }
                    *mq = q;
                    if q == 0 {
                        *dup = false;
                        *pid = None;
                    }
                    None
                });
            }
            for b in [true, false] {
                op!(k, format!("{n}_dup({b})"), |P::Publish { qos, dup, .. }, c: Packet::Publish| {
                    let r = if with {
                        c.clone().with_dup(b).map(|x| *c = x)
                    } else {
                        c.set_dup(b)
                    };
                    let ok = *qos > 0 || !b;
                    if ok {
                        *dup = b;
                    }
                    ck("set_dup", ok, r.map_err(|e| e.reason))
                });
                op!(k, format!("{n}_retain({b})"), |P::Publish { retain, .. }, c: Packet::Publish| {
                    if with {
                        *c = c.clone().with_retain(b)
                    } else {
                        c.set_retain(b)
                    }
                    *retain = b;
                    None
                });
            }
            for i in [Some(1u16), Some(0xfffe), None] {
                op!(k, format!("{n}_packet_id({i:?})"), |P::Publish { qos, pid, .. }, c: Packet::Publish| {
                    let r = if with {
                        c.clone().with_packet_id(i).map(|x| *c = x)
                    } else {
                        c.set_packet_id(i)
                    };
                    if *qos > 0 {
                        *pid = i;
                        ck("set_packet_id", true, r.map_err(|e| e.reason))
                    } else if i.is_some() {
                        ck("set_packet_id with QoS 0", false, r.map_err(|e| e.reason))
                    } else {
                        None
                    }
                });
            }
            for f in [PayloadFormat::Bin, PayloadFormat::Utf8] {
                k.push((
                    format!("{n}_payload_format({f:?})"),
                    Box::new(move |p, v| {
                        let Packet::Publish(c) = v else { panic!() };
                        if with {
                            *c = c.clone().with_payload_format(f)
                        } else {
                            c.set_payload_format(f)
                        }
                        set(p, 1, Some(PV::B((f == PayloadFormat::Utf8) as u8)));
                        None
                    }),
                ));
            }
        }
        for a in [1u16, 0xffff] {
            k.push((
                format!("with_topic_alias({a})"),
                Box::new(move |p, v| {
                    let Packet::Publish(c) = v else { panic!() };
                    *c = c.clone().with_topic_alias(a);
                    set(p, 0x23, Some(PV::U16(a)));
                    None
                }),
            ));
        }
        op!(k, "payload =", |P::Publish { payload, .. }, c: Packet::Publish| {
            c.payload = Some(b"other"[..].into());
            *payload = b"other".to_vec();
            None
        });
        op!(k, "payload = None", |P::Publish { payload, .. }, c: Packet::Publish| {
            c.payload = None;
            payload.clear();
            None
        });
        user_ops(&mut k);
        let mut starts = vec![];
        let m = |q: u8, i: Option<u16>, l: Props| P::Publish { dup: false, qos: q, retain: false, topic: "t".into(), pid: i, props: l, payload: "tëxt".into() };
        let one = || vec![Prop { id: 1, v: PV::B(1) }];
        for (q, i) in [(0, None), (1, Some(1)), (2, Some(0xffff))] {
            // (a refusal is reported by `refused`)
            if let Ok(x) = Publish::new_with_message(i, "t".into(), qos(q), "tëxt") {
                starts.push((format!("new_with_message({i:?}, {q})"), m(q, i, one()), Packet::Publish(x)));
            }
            if let Ok(x) = Publish::new_with_payload(i, "t".into(), qos(q), "tëxt".into()) {
                starts.push((format!("new_with_payload({i:?}, {q})"), m(q, i, vec![]), Packet::Publish(x)));
            }
        }
        starts.extend(both(
            "full",
            &P::Publish { dup: true, qos: 2, retain: true, topic: "a/b".into(), pid: Some(0x1234), props: all(3), payload: b"hi".to_vec() },
        ));
        starts.extend(both(
            "zero",
            &P::Publish { dup: false, qos: 1, retain: false, topic: "".into(), pid: Some(1), props: vec![Prop { id: 1, v: PV::B(0) }, Prop { id: 0x23, v: PV::U16(2) }], payload: vec![] },
        ));
        out.push(Kind { name: "publish", starts, ops: k, depth: (4, 5) });
    }
    // ---------------------------------------------------------------- PUBACK PUBREC PUBREL PUBCOMP
    for kind in 4..8u8 {
        let mut k: Vec<(String, Op)> = vec![];
        for r in 0..=255u8 {
            let Ok(x) = Reason::try_from(r) else { continue };
            k.push((
                format!("set_reason({r:#x})"),
                Box::new(move |p, v| {
                    let (Packet::PubAck(a) | Packet::PubRec(a) | Packet::PubRel(a) | Packet::PubComp(a)) = v else { panic!() };
                    let P::Ack { reason, .. } = p else { panic!() };
                    match a.set_reason(x) {
                        Ok(()) => {
                            *reason = r;
                            None
                        }
                        Err(e) => reason_ok(kind, r).then(|| format!("{e:?} for reason {r:#x}")),
                    }
                }),
            ));
        }
        let mk = |pid: u16| match kind {
            4 => Packet::PubAck(PubAck::new_puback_with_packet_id(pid)),
            5 => Packet::PubRec(PubRec::new_pubrec_with_packet_id(pid)),
            6 => Packet::PubRel(PubRel::new_pubrel_with_packet_id(pid)),
            _ => Packet::PubComp(PubComp::new_pubcomp_with_packet_id(pid)),
        };
        let mut starts: Vec<_> = [1u16, 0xffff].iter().map(|i| (format!("new {i}"), P::Ack { kind, pid: *i, reason: 0, props: vec![] }, mk(*i))).collect();
        starts.extend(both("full", &P::Ack { kind, pid: 7, reason: if kind < 6 { 0x10 } else { 0x92 }, props: all(kind) }));
        let name = ["puback", "pubrec", "pubrel", "pubcomp"][kind as usize - 4];
        out.push(Kind { name, starts, ops: k, depth: (3, 4) });
    }
    // ---------------------------------------------------------------- SUBSCRIBE
    {
        let mut k: Vec<(String, Op)> = vec![];
        for (f, q) in [("a", 0u8), ("b/+", 1), ("a", 2)] {
            op!(k, format!("add_filter({f}, {q})"), |P::Subscribe { filters, .. }, s: Packet::Subscribe| {
                s.add_filter(SubscriptionFilter::new(f.into(), qos(q)));
                filters.push((f.into(), q));
                None
            });
        }
        fn opt(
            k: &mut Vec<(String, Op)>,
            name: String,
            real: impl Fn(&mut SubscriptionFilter) + Sync + Send + 'static,
            model: impl Fn(u8) -> u8 + Sync + Send + 'static,
        ) {
            op!(k, name, |P::Subscribe { filters, .. }, s: Packet::Subscribe| {
                if let (Some(f), Some(m)) = (s.filter.last_mut(), filters.last_mut()) {
                    real(f);
                    m.1 = model(m.1);
                }
                None
            });
        }
        for q in 0..3u8 {
            opt(&mut k, format!("set_qos({q})"), move |f| f.set_qos(qos(q)), move |o| o & !3 | q);
            opt(&mut k, format!("with_qos({q})"), move |f| *f = f.clone().with_qos(qos(q)), move |o| o & !3 | q);
            opt(
                &mut k,
                format!("set_retain_handling({q})"),
                move |f| f.set_retain_handling([RetainHandling::Send, RetainHandling::SendNew, RetainHandling::None][q as usize]),
                move |o| o & !0x30 | q << 4,
            );
        }
        for b in [true, false] {
            opt(&mut k, format!("set_no_local({b})"), move |f| f.set_no_local(b), move |o| o & !4 | (b as u8) << 2);
            opt(&mut k, format!("set_retain_as_published({b})"), move |f| f.set_retain_as_published(b), move |o| o & !8 | (b as u8) << 3);
        }
        for i in [0usize, 1, 5] {
            op!(k, format!("remove_filter_at({i})"), |P::Subscribe { filters, .. }, s: Packet::Subscribe| {
                let r = s.remove_filter_at(i).map(|f| f.filter);
                let w = (i < filters.len()).then(|| filters.remove(i).0);
                (r != w).then(|| format!("removed {r:?} instead of {w:?}"))
            });
        }
        for f in ["a", "b/+", "nowhere"] {
            op!(k, format!("remove_filter_with_topic({f})"), |P::Subscribe { filters, .. }, s: Packet::Subscribe| {
                let r = s.remove_filter_with_topic(f).map(|f| f.qos());
                let w = filters.iter().position(|x| x.0 == f).map(|i| qos(filters.remove(i).1 & 3));
                (r != w).then(|| format!("removed {r:?} instead of {w:?}"))
            });
        }
        op!(k, "clear_filters()", |P::Subscribe { filters, .. }, s: Packet::Subscribe| {
            s.clear_filters();
            filters.clear();
            None
        });
        for n in [0u32, 1, 300, 268_435_455, 268_435_456, u32::MAX] {
            k.push((
                format!("set_subscription_id({n})"),
                Box::new(move |p, v| {
                    let Packet::Subscribe(s) = v else { panic!() };
                    let ok = (1..=268_435_455).contains(&n);
                    if ok {
                        set(p, 0x0b, Some(PV::Var(n)));
                    }
                    ck("set_subscription_id", ok, s.set_subscription_id(n).map_err(|e| e.to_string()))
                }),
            ));
        }
        user_ops(&mut k);
        let mut starts = vec![
            ("new_with_packet_id".to_string(), P::Subscribe { pid: 5, props: vec![], filters: vec![] }, Packet::Subscribe(Subscribe::new_with_packet_id(5))),
            (
                "new_with_filter".to_string(),
                P::Subscribe { pid: 6, props: vec![], filters: vec![("x".into(), 1), ("a".into(), 0x2e)] },
                Packet::Subscribe(Subscribe::new_with_filter(6, vec![SubscriptionFilter::new("x".into(), qos(1)), {
                    let mut f = SubscriptionFilter::new("a".into(), qos(2));
                    f.set_no_local(true);
                    f.set_retain_as_published(true);
                    f.set_retain_handling(RetainHandling::None);
                    f
                }])),
            ),
        ];
        starts.extend(both("full", &P::Subscribe { pid: 0xffff, props: all(8), filters: vec![("a".into(), 0x2d), ("b/+".into(), 0x12), ("a".into(), 1)] }));
        out.push(Kind { name: "subscribe", starts, ops: k, depth: (4, 5) });
    }
    // ---------------------------------------------------------------- UNSUBSCRIBE, SUBACK
    {
        let mut k: Vec<(String, Op)> = vec![];
        for f in ["a", "b/#", "a"] {
            op!(k, format!("add_topic({f})"), |P::Unsubscribe { filters, .. }, u: Packet::Unsubscribe| {
                u.add_topic(f.into());
                filters.push(f.into());
                None
            });
        }
        user_ops(&mut k);
        let mut starts = both("full", &P::Unsubscribe { pid: 9, props: all(10), filters: vec!["+".into()] });
        starts.extend(both("new", &P::Unsubscribe { pid: 1, props: vec![], filters: vec!["x".into(), "a".into()] }));
        out.push(Kind { name: "unsubscribe", starts, ops: k, depth: (4, 6) });
        let mut k: Vec<(String, Op)> = vec![];
        for i in [0u16, 1, 0x1234, 0xffff] {
            op!(k, format!("set_packet_id({i})"), |P::SubAck { pid, .. }, s: Packet::SubAck| {
                if i > 0 {
                    *pid = i;
                }
                ck("set_packet_id", i > 0, s.set_packet_id(i).map_err(|e| e.reason))
            });
        }
        for r in [0u8, 2, 0x80].into_iter().filter(|r| Reason::try_from(*r).is_ok()) {
            op!(k, format!("reason code {r:#x}"), |P::SubAck { reasons, .. }, s: Packet::SubAck| {
                s.reason_codes.push(Reason::try_from(r).unwrap());
                reasons.push(r);
                None
            });
        }
        user_ops(&mut k);
        let mut starts = both("new", &P::SubAck { pid: 3, props: vec![], reasons: vec![1] });
        starts.extend(both("full", &P::SubAck { pid: 9, props: all(9), reasons: vec![0, 0x87] }));
        out.push(Kind { name: "suback", starts, ops: k, depth: (4, 5) });
    }
    out
}

/// The calls that constructors must refuse.
fn refused(ctx: &Ctx) {
    for q in [0u8, 1, 2] {
        for i in [None, Some(1u16), Some(0xffff)] {
            let ok = (q > 0) == i.is_some();
            for (n, r) in [
                ("new_with_message", Publish::new_with_message(i, "t".into(), qos(q), "x").map(|_| ())),
                ("new_with_payload", Publish::new_with_payload(i, "t".into(), qos(q), b"x".to_vec()).map(|_| ())),
            ] {
                ctx.st(1);
                ctx.tr(1);
                if r.is_ok() != ok {
                    ctx.violation(&format!("publish/{n}"), || format!("{n}({i:?}, {q}): {r:?}"), || format!("{n} {i:?} {q}"));
                }
            }
        }
    }
}

fn walk(ctx: &Ctx, k: &Kind, s: usize, path: &mut Vec<usize>, p: &P, v: &Packet, depth: usize, n: &mut u64) {
    *n += 1;
    for (i, (name, op)) in k.ops.iter().enumerate() {
        path.push(i);
        let (mut q, mut w) = (p.clone(), v.clone());
        let r = match catch(|| op(&mut q, &mut w)) {
            Err(m) => Some(("panic".to_string(), m)),
            Ok(Some(d)) => Some(("result".to_string(), d)),
            Ok(None) => look(&q, &w),
        };
        if let Some((c, d)) = r {
            ctx.violation(&format!("{}/{}/{c}", k.name, name.split(['(', ' ']).next().unwrap()), || format!("{} then {}: {d}", k.starts[s].0, names(k, path)), || {
                format!("{} {s} {}", k.name, path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
            });
        } else if depth > 1 {
            walk(ctx, k, s, path, &q, &w, depth - 1, n);
        } else {
            *n += 1;
        }
        path.pop();
    }
}
fn names(k: &Kind, path: &[usize]) -> String {
    path.iter().map(|i| k.ops[*i].0.clone()).collect::<Vec<_>>().join("; ")
}

pub fn run(ctx: &Ctx) {
    refused(ctx);
    for k in &kinds() {
        let depth = if ctx.thorough { k.depth.1 } else { k.depth.0 };
        let m = k.ops.len();
        let total = std::sync::atomic::AtomicU64::new(0);
        for (s, (name, p, v)) in k.starts.iter().enumerate() {
            if let Some((c, d)) = look(p, v) {
                ctx.violation(&format!("{}/start/{c}", k.name), || format!("{name}: {d}"), || format!("{} {s} -", k.name));
                continue;
            }
            par(ctx, m, |i| {
                at(|x| x.push_str(&format!("{} {s} {i}", k.name)));
                let (mut q, mut w) = (p.clone(), v.clone());
                let r = match catch(|| k.ops[i].1(&mut q, &mut w)) {
                    Err(m) => Some(("panic".to_string(), m)),
                    Ok(Some(d)) => Some(("result".to_string(), d)),
                    Ok(None) => look(&q, &w),
                };
                let mut n = 1;
                match r {
                    Some((c, d)) => ctx.violation(
                        &format!("{}/{}/{c}", k.name, k.ops[i].0.split(['(', ' ']).next().unwrap()),
                        || format!("{name} then {}: {d}", k.ops[i].0),
                        || format!("{} {s} {i}", k.name),
                    ),
                    None => walk(ctx, k, s, &mut vec![i], &q, &w, depth - 1, &mut n),
                }
                ctx.st(n);
                ctx.tr(n);
                ctx.tc(n);
                total.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
            });
        }
        ctx.count(&format!("{} calls", k.name), m as u64);
        ctx.count(&format!("{} sequences", k.name), total.load(std::sync::atomic::Ordering::Relaxed));
        ctx.sample(|| format!("{}: {} then {}", k.name, k.starts[0].0, names(k, &[0, m / 2, m - 1])));
    }
    ctx.rule(
        "every sequence of constructor and setter calls of each packet type up to the stated depth, from new, fully built and received \
         packets; after every call its result, the accessors and the encoded bytes are compared with a reference packet; a state is one \
         packet after one sequence of calls, a transition one call",
    );
}

pub fn replay(case: &str) {
    let w: Vec<&str> = case.split(' ').collect();
    let ks = kinds();
    let Some(k) = ks.iter().find(|k| k.name == w[0]) else {
        println!("{case}");
        return;
    };
    let (name, p, v) = &k.starts[w[1].parse::<usize>().unwrap()];
    let (mut p, mut v) = (p.clone(), v.clone());
    println!("{name}: {:?}", look(&p, &v));
    for i in w[2].split(',').filter_map(|x| x.parse::<usize>().ok()) {
        let r = catch(|| k.ops[i].1(&mut p, &mut v));
        println!("{}: {r:?} {:?}", k.ops[i].0, look(&p, &v));
    }
    println!("{p:?}\n{v:?}");
}
