//! Reference packet -> packet of the code under test, through its public API only.
use bytes::Bytes;
use refmqtt::*;
use vaux_mqtt::codec::FixedHeader;
use vaux_mqtt::property::UserProperty;
use vaux_mqtt::publish::PayloadFormat;
use vaux_mqtt::subscribe::{RetainHandling, SubAck};
use vaux_mqtt::unsubscribe::{UnsubAck, Unsubscribe};
use vaux_mqtt::{
    ConnAck, Connect, Disconnect, Packet, PubAck, PubComp, PubRec, PubRel, Publish, QoSLevel, Reason, Subscribe,
    SubscriptionFilter, WillMessage,
};

pub fn qos(q: u8) -> QoSLevel {
    match q {
        0 => QoSLevel::AtMostOnce,
        1 => QoSLevel::AtLeastOnce,
        _ => QoSLevel::ExactlyOnce,
    }
}
fn up(props: &Props) -> UserProperty {
    let mut u = UserProperty::new();
    for p in props {
        if let PV::Pair(a, b) = &p.v {
            u.add(a.clone(), b.clone())
        }
    }
    u
}
struct G<'a>(&'a Props);
impl G<'_> {
    fn u32(&self, id: u8) -> Option<u32> {
        self.0.iter().find(|p| p.id == id).map(|p| match p.v {
            PV::U32(x) | PV::Var(x) => x,
            _ => panic!("u32"),
        })
    }
    fn u16(&self, id: u8) -> Option<u16> {
        self.0.iter().find(|p| p.id == id).map(|p| match p.v {
            PV::U16(x) => x,
            _ => panic!("u16"),
        })
    }
    fn b(&self, id: u8) -> Option<u8> {
        self.0.iter().find(|p| p.id == id).map(|p| match p.v {
            PV::B(x) => x,
            _ => panic!("b"),
        })
    }
    fn bool(&self, id: u8) -> Option<bool> {
        self.b(id).map(|x| x != 0)
    }
    fn s(&self, id: u8) -> Option<String> {
        self.0.iter().find(|p| p.id == id).map(|p| match &p.v {
            PV::Str(x) => x.clone(),
            _ => panic!("s"),
        })
    }
    fn bin(&self, id: u8) -> Vec<u8> {
        self.0
            .iter()
            .find(|p| p.id == id)
            .map(|p| match &p.v {
                PV::Bin(x) => x.clone(),
                _ => panic!("bin"),
            })
            .unwrap_or_default()
    }
}
fn pf(b: Option<u8>) -> Option<PayloadFormat> {
    b.map(|x| if x == 0 { PayloadFormat::Bin } else { PayloadFormat::Utf8 })
}

/// None: the public API offers no way to build this packet.
pub fn build(p: &P) -> Option<Packet> {
    Some(match p {
        P::Connect { clean, keep_alive, props, client_id, will, username, password } => {
            let mut c = Connect::new();
            c.set_clean_start(*clean);
            c.keep_alive = *keep_alive;
            c.client_id = client_id.clone();
            let g = G(props);
            c.session_expiry_interval = g.u32(0x11);
            c.receive_maximum = g.u16(0x21);
            c.max_packet_size = g.u32(0x27);
            c.topic_alias_maximum = g.u16(0x22);
            c.request_response_info = g.bool(0x19);
            c.request_problem_info = g.bool(0x17);
            c.auth_method = g.s(0x15);
            c.auth_data = g.bin(0x16);
            c.user_properties = up(props);
            if let Some(w) = will {
                let mut m = WillMessage::new(w.topic.clone(), &w.payload, qos(w.qos), w.retain);
                let g = G(&w.props);
                m.header.will_delay = g.u32(0x18);
                m.header.payload_format = pf(g.b(1));
                m.header.message_expiry = g.u32(2);
                m.header.content_type = g.s(3);
                m.header.response_topic = g.s(8);
                m.header.correlation_data = g.bin(9);
                m.header.user_properties = up(&w.props);
                c.set_will_message(m);
            }
            if username.is_some() {
                c.set_username(username.clone());
            }
            if password.is_some() {
                c.set_password(password.clone());
            }
            Packet::Connect(Box::new(c))
        }
        P::ConnAck { sp, reason, props } => {
            let mut c = ConnAck::default();
            c.set_session_present(*sp);
            c.reason = Reason::try_from(*reason).ok()?;
            let g = G(props);
            c.session_expiry_interval = g.u32(0x11);
            c.receive_maximum = g.u16(0x21);
            c.maximum_qos = g.b(0x24).map(qos);
            c.retain_available = g.bool(0x25);
            c.maximum_packet_size = g.u32(0x27);
            c.assigned_client_id = g.s(0x12);
            c.topic_alias_maximum = g.u16(0x22);
            c.reason_string = g.s(0x1f);
            c.subscription_identifier_available = g.bool(0x29);
            c.user_properties = up(props);
            c.wildcard_subscription_available = g.bool(0x28);
            c.shared_subscription_available = g.bool(0x2a);
            c.server_keep_alive = g.u16(0x13);
            c.response_information = g.s(0x1a);
            c.server_reference = g.s(0x1c);
            c.auth_method = g.s(0x15);
            c.auth_data = g.bin(0x16);
            Packet::ConnAck(c)
        }
        P::Publish { dup, qos: q, retain, topic, pid, props, payload } => {
            let mut c = Publish::new_from_header(FixedHeader::new(vaux_mqtt::PacketType::Publish)).ok()?;
            c.topic_name = topic.clone();
            c.set_qos(qos(*q));
            c.set_dup(*dup).ok()?;
            c.set_retain(*retain);
            if *q > 0 {
                c.set_packet_id(*pid).ok()?;
            }
            let g = G(props);
            c.message_expiry = g.u32(2);
            c.payload_format = pf(g.b(1));
            c.topic_alias = g.u16(0x23);
            c.response_topic = g.s(8);
            c.correlation_data = g.bin(9);
            c.subscription_identifiers = g.u32(0x0b);
            c.content_type = g.s(3);
            c.user_properties = up(props);
            c.payload = Some(Bytes::from(payload.clone()));
            Packet::Publish(c)
        }
        P::Ack { kind, pid, reason, props } => {
            if !props.is_empty() {
                return None;
            }
            let r = Reason::try_from(*reason).ok()?;
            macro_rules! mk {
                ($ctor:expr, $v:path) => {{
                    let mut a = $ctor(*pid);
                    if *reason != 0 {
                        a.set_reason(r).ok()?;
                    }
                    $v(a)
                }};
            }
            match kind {
                4 => mk!(PubAck::new_puback_with_packet_id, Packet::PubAck),
                5 => mk!(PubRec::new_pubrec_with_packet_id, Packet::PubRec),
                6 => mk!(PubRel::new_pubrel_with_packet_id, Packet::PubRel),
                _ => mk!(PubComp::new_pubcomp_with_packet_id, Packet::PubComp),
            }
        }
        P::Subscribe { pid, props, filters } => {
            let mut s = Subscribe::new_with_packet_id(*pid);
            s.subscription_id = G(props).u32(0x0b);
            s.user_props = up(props);
            for (f, o) in filters {
                let mut x = SubscriptionFilter::new(f.clone(), qos(o & 3));
                x.set_no_local(o & 4 != 0);
                x.set_retain_as_published(o & 8 != 0);
                x.set_retain_handling(match (o >> 4) & 3 {
                    0 => RetainHandling::Send,
                    1 => RetainHandling::SendNew,
                    _ => RetainHandling::None,
                });
                s.add_filter(x);
            }
            Packet::Subscribe(s)
        }
        P::SubAck { pid, props, reasons } => {
            let mut s = SubAck::new_with_packet_id(*pid).ok()?;
            s.reason = G(props).s(0x1f);
            s.user_properties = up(props);
            for r in reasons {
                s.reason_codes.push(Reason::try_from(*r).ok()?)
            }
            Packet::SubAck(s)
        }
        P::Unsubscribe { pid, props, filters } => {
            let mut u = Unsubscribe::new(*pid, filters.clone());
            u.props = up(props);
            Packet::Unsubscribe(u)
        }
        P::UnsubAck { pid, props, reasons } => {
            let mut s = UnsubAck::default();
            s.packet_id = *pid;
            s.reason = G(props).s(0x1f).unwrap_or_default();
            s.user_properties = up(props);
            for r in reasons {
                s.reason_code.push(Reason::try_from(*r).ok()?)
            }
            Packet::UnsubAck(s)
        }
        P::PingReq => Packet::PingRequest(Default::default()),
        P::PingResp => Packet::PingResponse(Default::default()),
        P::Disconnect { reason, props } => {
            let mut d = Disconnect::new(Reason::try_from(*reason).ok()?);
            let g = G(props);
            d.session_expiry_interval = g.u32(0x11);
            d.reason_string = g.s(0x1f);
            d.server_reference = g.s(0x1c);
            d.user_properties = up(props);
            Packet::Disconnect(d)
        }
        P::Auth { .. } => return None,
    })
}

/// The representation does not distinguish an absent payload from an empty one.
pub fn norm(mut p: Packet) -> Packet {
    if let Packet::Publish(x) = &mut p {
        if x.payload.as_ref().map(|b| b.is_empty()).unwrap_or(false) {
            x.payload = None
        }
    }
    p
}

/// Canonical reference packet; UNSUBACK cannot express "no reason string".
pub fn canon(p: P) -> P {
    let mut p = p.canon();
    if let P::UnsubAck { props, .. } = &mut p {
        props.retain(|x| !(x.id == 0x1f && x.v == PV::Str(String::new())));
    }
    p
}

/// What the public accessors say about a packet (independent of encoding), where there are any.
pub fn accessor_diff(p: &P, v: &Packet) -> Option<String> {
    macro_rules! ck {
        ($a:expr, $b:expr, $n:expr) => {
            if ($a) != ($b) {
                return Some(format!("{}: accessor says {:?}, packet carries {:?}", $n, $b, $a));
            }
        };
    }
    match (p, v) {
        (P::Connect { clean, keep_alive, client_id, will, username, password, props }, Packet::Connect(c)) => {
            ck!(*clean, c.clean_start(), "clean start");
            ck!(*keep_alive, c.keep_alive, "keep alive");
            ck!(*client_id, c.client_id, "client id");
            ck!(username.is_some(), c.username(), "username flag");
            ck!(password.is_some(), c.password(), "password flag");
            ck!(G(props).u32(0x11), c.session_expiry_interval, "session expiry");
            ck!(G(props).u16(0x21), c.receive_maximum, "receive maximum");
            ck!(will.is_some(), c.will(), "will flag");
            if let (Some(w), Some(m)) = (will, c.will_message()) {
                ck!(w.topic, m.topic, "will topic");
                ck!(w.payload, m.payload.to_vec(), "will payload");
                ck!(qos(w.qos), m.qos, "will qos");
                ck!(w.retain, m.retain, "will retain");
                ck!(G(&w.props).u32(0x18), m.header.will_delay, "will delay");
            }
        }
        (P::ConnAck { sp, reason, .. }, Packet::ConnAck(c)) => {
            ck!(*sp, c.session_present(), "session present");
            ck!(*reason, c.reason as u8, "reason");
        }
        (P::Publish { dup, qos: q, retain, topic, pid, payload, .. }, Packet::Publish(c)) => {
            ck!(*dup, c.dup(), "dup");
            ck!(qos(*q), c.qos(), "qos");
            ck!(*retain, c.retain(), "retain");
            ck!(*topic, c.topic_name, "topic");
            ck!(*pid, c.packet_id(), "packet id");
            ck!(*payload, c.payload.clone().unwrap_or_default().to_vec(), "payload");
        }
        (P::Ack { kind, pid, reason, .. }, v) => {
            let (k, c) = match v {
                Packet::PubAck(c) => (4, c),
                Packet::PubRec(c) => (5, c),
                Packet::PubRel(c) => (6, c),
                Packet::PubComp(c) => (7, c),
                _ => return Some("wrong packet type".into()),
            };
            ck!(*kind, k, "type");
            ck!(*pid, c.packet_id, "packet id");
            ck!(*reason, c.reason().unwrap_or_default() as u8, "reason");
        }
        (P::Subscribe { pid, filters, .. }, Packet::Subscribe(c)) => {
            ck!(*pid, c.packet_id, "packet id");
            ck!(filters.len(), c.filter.len(), "filters");
            for (f, g) in filters.iter().zip(&c.filter) {
                ck!(f.0, g.filter, "filter");
                ck!(qos(f.1 & 3), g.qos(), "filter qos");
                ck!(f.1 & 4 != 0, g.no_local(), "no local");
                ck!(f.1 & 8 != 0, g.retain_as_published(), "retain as published");
                ck!((f.1 >> 4) & 3, g.retain_handling() as u8, "retain handling");
            }
        }
        (P::SubAck { pid, reasons, .. }, Packet::SubAck(c)) => {
            ck!(*pid, c.packet_id(), "packet id");
            ck!(*reasons, c.reason_codes.iter().map(|r| *r as u8).collect::<Vec<_>>(), "reasons");
        }
        (P::Unsubscribe { pid, filters, .. }, Packet::Unsubscribe(c)) => {
            ck!(*pid, c.packet_id, "packet id");
            ck!(*filters, c.topics, "topics");
        }
        (P::UnsubAck { pid, reasons, .. }, Packet::UnsubAck(c)) => {
            ck!(*pid, c.packet_id, "packet id");
            ck!(*reasons, c.reason_code.iter().map(|r| *r as u8).collect::<Vec<_>>(), "reasons");
        }
        (P::PingReq, Packet::PingRequest(_)) | (P::PingResp, Packet::PingResponse(_)) => {}
        (P::Disconnect { reason, .. }, Packet::Disconnect(c)) => ck!(*reason, c.reason as u8, "reason"),
        _ => return Some("wrong packet type".into()),
    }
    None
}

/// Looks at a packet through every accessor; returns something that depends on all of them.
pub fn inspect(v: &Packet) -> usize {
    let n = match v {
        Packet::Connect(c) => format!(
            "{}{}{:?}{}{}{}{:?}",
            c.clean_start(),
            c.will_retain(),
            c.will_qos(),
            c.will(),
            c.username(),
            c.password(),
            c.will_message()
        ),
        Packet::ConnAck(c) => format!("{}{:?}", c.session_present(), c.receive_max()),
        Packet::Publish(c) => format!("{:?}{}{}{:?}", c.qos(), c.dup(), c.retain(), c.packet_id()),
        Packet::PubAck(c) | Packet::PubRec(c) | Packet::PubRel(c) | Packet::PubComp(c) => format!("{:?}", c.reason()),
        Packet::Subscribe(c) => c
            .filter
            .iter()
            .map(|g| format!("{:?}{}{}{:?}", g.qos(), g.no_local(), g.retain_as_published(), g.retain_handling()))
            .collect(),
        Packet::SubAck(c) => format!("{}", c.packet_id()),
        _ => String::new(),
    };
    n.len() + format!("{v:?}").len() + (*v == v.clone()) as usize
}
