//! An independent, deliberately boring reference model of the MQTT 5.0 wire format.
//! Nothing in here is shared with the code under test.

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum PV {
    B(u8),
    U16(u16),
    U32(u32),
    Var(u32),
    Str(String),
    Bin(Vec<u8>),
    Pair(String, String),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Prop {
    pub id: u8,
    pub v: PV,
}

pub type Props = Vec<Prop>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Will {
    pub props: Props,
    pub topic: String,
    pub payload: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum P {
    Connect {
        clean: bool,
        keep_alive: u16,
        props: Props,
        client_id: String,
        will: Option<Will>,
        username: Option<String>,
        password: Option<Vec<u8>>,
    },
    ConnAck { sp: bool, reason: u8, props: Props },
    Publish { dup: bool, qos: u8, retain: bool, topic: String, pid: Option<u16>, props: Props, payload: Vec<u8> },
    /// kind: 4 PUBACK, 5 PUBREC, 6 PUBREL, 7 PUBCOMP
    Ack { kind: u8, pid: u16, reason: u8, props: Props },
    Subscribe { pid: u16, props: Props, filters: Vec<(String, u8)> },
    SubAck { pid: u16, props: Props, reasons: Vec<u8> },
    Unsubscribe { pid: u16, props: Props, filters: Vec<String> },
    UnsubAck { pid: u16, props: Props, reasons: Vec<u8> },
    PingReq,
    PingResp,
    Disconnect { reason: u8, props: Props },
    Auth { reason: u8, props: Props },
}

impl P {
    pub fn type_nibble(&self) -> u8 {
        match self {
            P::Connect { .. } => 1,
            P::ConnAck { .. } => 2,
            P::Publish { .. } => 3,
            P::Ack { kind, .. } => *kind,
            P::Subscribe { .. } => 8,
            P::SubAck { .. } => 9,
            P::Unsubscribe { .. } => 10,
            P::UnsubAck { .. } => 11,
            P::PingReq => 12,
            P::PingResp => 13,
            P::Disconnect { .. } => 14,
            P::Auth { .. } => 15,
        }
    }
    pub fn name(&self) -> &'static str {
        type_name(self.type_nibble())
    }

    /// Canonical form: the order of user properties is kept, the order of different
    /// properties is not significant; empty binary properties equal absent ones.
    pub fn canon(mut self) -> P {
        fn c(props: &mut Props) {
            props.retain(|p| !matches!(&p.v, PV::Bin(b) if b.is_empty()));
            props.sort_by_key(|p| p.id);
        }
        match &mut self {
            P::Connect { props, will, .. } => {
                c(props);
                if let Some(w) = will {
                    c(&mut w.props)
                }
            }
            P::ConnAck { props, .. }
            | P::Publish { props, .. }
            | P::Ack { props, .. }
            | P::Subscribe { props, .. }
            | P::SubAck { props, .. }
            | P::Unsubscribe { props, .. }
            | P::UnsubAck { props, .. }
            | P::Disconnect { props, .. }
            | P::Auth { props, .. } => c(props),
            P::PingReq | P::PingResp => {}
        }
        self
    }
}

pub fn type_name(n: u8) -> &'static str {
    [
        "RESERVED", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP",
        "SUBSCRIBE", "SUBACK", "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT", "AUTH",
    ][(n & 15) as usize]
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T {
    B,
    U16,
    U32,
    Var,
    Str,
    Bin,
    Pair,
}

/// 2.2.2.2 property table: type, and the packets it may appear in (packet nibble; 0 = Will)
pub fn prop_info(id: u8) -> Option<(T, &'static [u8])> {
    Some(match id {
        0x01 => (T::B, &[3, 0]),
        0x02 => (T::U32, &[3, 0]),
        0x03 => (T::Str, &[3, 0]),
        0x08 => (T::Str, &[3, 0]),
        0x09 => (T::Bin, &[3, 0]),
        0x0b => (T::Var, &[3, 8]),
        0x11 => (T::U32, &[1, 2, 14]),
        0x12 => (T::Str, &[2]),
        0x13 => (T::U16, &[2]),
        0x15 => (T::Str, &[1, 2, 15]),
        0x16 => (T::Bin, &[1, 2, 15]),
        0x17 => (T::B, &[1]),
        0x18 => (T::U32, &[0]),
        0x19 => (T::B, &[1]),
        0x1a => (T::Str, &[2]),
        0x1c => (T::Str, &[2, 14]),
        0x1f => (T::Str, &[2, 4, 5, 6, 7, 9, 11, 14, 15]),
        0x21 => (T::U16, &[1, 2]),
        0x22 => (T::U16, &[1, 2]),
        0x23 => (T::U16, &[3]),
        0x24 => (T::B, &[2]),
        0x25 => (T::B, &[2]),
        0x26 => (T::Pair, &[1, 2, 3, 0, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15]),
        0x27 => (T::U32, &[1, 2]),
        0x28 => (T::B, &[2]),
        0x29 => (T::B, &[2]),
        0x2a => (T::B, &[2]),
        _ => return None,
    })
}

pub fn props_for(pkt: u8) -> Vec<u8> {
    (0u8..=0x2a).filter(|id| prop_info(*id).map(|(_, l)| l.contains(&pkt)).unwrap_or(false)).collect()
}

pub const REASONS: &[u8] = &[
    0x00, 0x01, 0x02, 0x04, 0x10, 0x11, 0x18, 0x19, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88,
    0x89, 0x8a, 0x8b, 0x8c, 0x8d, 0x8e, 0x8f, 0x90, 0x91, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99,
    0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2,
];

/// Reason codes a packet may carry (2.4).
pub fn reason_ok(pkt: u8, r: u8) -> bool {
    let l: &[u8] = match pkt {
        2 => &[
            0, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x8c, 0x90, 0x95, 0x97, 0x99,
            0x9a, 0x9b, 0x9c, 0x9d, 0x9f,
        ],
        4 | 5 => &[0, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        6 | 7 => &[0, 0x92],
        9 => &[0, 1, 2, 0x80, 0x83, 0x87, 0x8f, 0x91, 0x97, 0x9e, 0xa1, 0xa2],
        11 => &[0, 0x11, 0x80, 0x83, 0x87, 0x8f, 0x91],
        14 => &[
            0, 4, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8b, 0x8d, 0x8e, 0x8f, 0x90, 0x93, 0x94, 0x95, 0x96, 0x97,
            0x98, 0x99, 0x9a, 0x9b, 0x9c, 0x9d, 0x9e, 0x9f, 0xa0, 0xa1, 0xa2,
        ],
        15 => &[0, 0x18, 0x19],
        _ => &[],
    };
    l.contains(&r)
}

// ------------------------------------------------------------------ encoding

pub fn varint(mut v: u32, out: &mut Vec<u8>) {
    assert!(v < (1 << 28));
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
fn s(x: &str, o: &mut Vec<u8>) {
    bin(x.as_bytes(), o)
}
fn bin(x: &[u8], o: &mut Vec<u8>) {
    o.extend_from_slice(&(x.len() as u16).to_be_bytes());
    o.extend_from_slice(x);
}
pub fn props_bytes(p: &Props) -> Vec<u8> {
    let mut o = vec![];
    for p in p {
        o.push(p.id);
        match &p.v {
            PV::B(b) => o.push(*b),
            PV::U16(v) => o.extend_from_slice(&v.to_be_bytes()),
            PV::U32(v) => o.extend_from_slice(&v.to_be_bytes()),
            PV::Var(v) => varint(*v, &mut o),
            PV::Str(v) => s(v, &mut o),
            PV::Bin(v) => bin(v, &mut o),
            PV::Pair(a, b) => {
                s(a, &mut o);
                s(b, &mut o)
            }
        }
    }
    o
}
fn put_props(p: &Props, o: &mut Vec<u8>) {
    let b = props_bytes(p);
    varint(b.len() as u32, o);
    o.extend_from_slice(&b);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    /// shortest legal form
    Short,
    /// all optional trailing parts written out
    Long,
    /// reason code present, property length omitted (legal when there are no properties)
    Mid,
}

pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![first];
    varint(body.len() as u32, &mut o);
    o.extend_from_slice(body);
    o
}

pub fn first_byte(p: &P) -> u8 {
    match p {
        P::Publish { dup, qos, retain, .. } => 0x30 | ((*dup as u8) << 3) | (qos << 1) | *retain as u8,
        P::Ack { kind: 6, .. } => 0x62,
        P::Subscribe { .. } => 0x82,
        P::Unsubscribe { .. } => 0xa2,
        p => p.type_nibble() << 4,
    }
}

pub fn body(p: &P, form: Form) -> Vec<u8> {
    let mut o = vec![];
    match p {
        P::Connect { clean, keep_alive, props, client_id, will, username, password } => {
            s("MQTT", &mut o);
            o.push(5);
            let mut f = 0u8;
            if *clean {
                f |= 2
            }
            if let Some(w) = will {
                f |= 4 | (w.qos << 3) | ((w.retain as u8) << 5)
            }
            if password.is_some() {
                f |= 0x40
            }
            if username.is_some() {
                f |= 0x80
            }
            o.push(f);
            o.extend_from_slice(&keep_alive.to_be_bytes());
            put_props(props, &mut o);
            s(client_id, &mut o);
            if let Some(w) = will {
                put_props(&w.props, &mut o);
                s(&w.topic, &mut o);
                bin(&w.payload, &mut o);
            }
            if let Some(u) = username {
                s(u, &mut o)
            }
            if let Some(u) = password {
                bin(u, &mut o)
            }
        }
        P::ConnAck { sp, reason, props } => {
            o.push(*sp as u8);
            o.push(*reason);
            put_props(props, &mut o);
        }
        P::Publish { topic, pid, props, payload, .. } => {
            s(topic, &mut o);
            if let Some(p) = pid {
                o.extend_from_slice(&p.to_be_bytes())
            }
            put_props(props, &mut o);
            o.extend_from_slice(payload);
        }
        P::Ack { pid, reason, props, .. } => {
            o.extend_from_slice(&pid.to_be_bytes());
            tail(*reason, props, form, &mut o);
        }
        P::Disconnect { reason, props } | P::Auth { reason, props } => tail(*reason, props, form, &mut o),
        P::Subscribe { pid, props, filters } => {
            o.extend_from_slice(&pid.to_be_bytes());
            put_props(props, &mut o);
            for (f, opt) in filters {
                s(f, &mut o);
                o.push(*opt)
            }
        }
        P::Unsubscribe { pid, props, filters } => {
            o.extend_from_slice(&pid.to_be_bytes());
            put_props(props, &mut o);
            for f in filters {
                s(f, &mut o)
            }
        }
        P::SubAck { pid, props, reasons } | P::UnsubAck { pid, props, reasons } => {
            o.extend_from_slice(&pid.to_be_bytes());
            put_props(props, &mut o);
            o.extend_from_slice(reasons);
        }
        P::PingReq | P::PingResp => {}
    }
    o
}

fn tail(reason: u8, props: &Props, form: Form, o: &mut Vec<u8>) {
    if props.is_empty() && form == Form::Short && reason == 0 {
        return;
    }
    o.push(reason);
    if props.is_empty() && form != Form::Long {
        return;
    }
    put_props(props, o);
}

pub fn encode(p: &P, form: Form) -> Vec<u8> {
    frame(first_byte(p), &body(p, form))
}

// ------------------------------------------------------------------ decoding

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Bad {
    /// cannot be parsed at all: structure of the packet is broken
    Malformed(&'static str),
    /// parses, but carries a value the protocol forbids (grey zone for a codec)
    Forbidden(&'static str),
}
use Bad::*;

struct R<'a> {
    b: &'a [u8],
    /// first grey-zone complaint
    grey: Option<&'static str>,
}
impl<'a> R<'a> {
    fn u8(&mut self) -> Result<u8, Bad> {
        let (f, r) = self.b.split_first().ok_or(Malformed("truncated field"))?;
        self.b = r;
        Ok(*f)
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        if self.b.len() < n {
            return Err(Malformed("truncated field"));
        }
        let (a, r) = self.b.split_at(n);
        self.b = r;
        Ok(a)
    }
    fn u16(&mut self) -> Result<u16, Bad> {
        let a = self.take(2)?;
        Ok(u16::from_be_bytes([a[0], a[1]]))
    }
    fn u32(&mut self) -> Result<u32, Bad> {
        let a = self.take(4)?;
        Ok(u32::from_be_bytes([a[0], a[1], a[2], a[3]]))
    }
    fn var(&mut self) -> Result<u32, Bad> {
        let mut v = 0u32;
        for i in 0..4 {
            let b = self.u8()?;
            v |= ((b & 0x7f) as u32) << (7 * i);
            if b & 0x80 == 0 {
                if i > 0 && b == 0 {
                    self.grey("non-minimal variable byte integer");
                }
                return Ok(v);
            }
        }
        Err(Malformed("variable byte integer too long"))
    }
    fn bin(&mut self) -> Result<Vec<u8>, Bad> {
        let n = self.u16()? as usize;
        Ok(self.take(n)?.to_vec())
    }
    fn str(&mut self) -> Result<String, Bad> {
        let b = self.bin()?;
        let s = String::from_utf8(b).map_err(|_| Malformed("invalid UTF-8"))?;
        if s.contains('\0') {
            return Err(Malformed("U+0000 in string"));
        }
        Ok(s)
    }
    fn grey(&mut self, m: &'static str) {
        if self.grey.is_none() {
            self.grey = Some(m)
        }
    }
    fn props(&mut self, pkt: u8) -> Result<Props, Bad> {
        let n = self.var()? as usize;
        if self.b.len() < n {
            return Err(Malformed("property length exceeds packet"));
        }
        let (mine, rest) = self.b.split_at(n);
        let mut r = R { b: mine, grey: self.grey };
        let mut out: Props = vec![];
        while !r.b.is_empty() {
            // the identifier is itself a variable byte integer, all known ones are one byte
            let id = r.u8()?;
            let (t, l) = prop_info(id).ok_or(Malformed("unknown property"))?;
            if !l.contains(&pkt) {
                return Err(Malformed("property not allowed in this packet"));
            }
            let v = match t {
                T::B => PV::B(r.u8()?),
                T::U16 => PV::U16(r.u16()?),
                T::U32 => PV::U32(r.u32()?),
                T::Var => PV::Var(r.var()?),
                T::Str => PV::Str(r.str()?),
                T::Bin => PV::Bin(r.bin()?),
                T::Pair => {
                    let a = r.str()?;
                    PV::Pair(a, r.str()?)
                }
            };
            if let PV::B(b) = &v {
                if *b > 1 {
                    r.grey("byte property out of range");
                }
            }
            match (&v, id) {
                (PV::Var(0), 0x0b) => r.grey("subscription identifier 0"),
                (PV::U16(0), 0x21) => r.grey("receive maximum 0"),
                (PV::U32(0), 0x27) => r.grey("maximum packet size 0"),
                (PV::U16(0), 0x23) => r.grey("topic alias 0"),
                _ => {}
            }
            if id != 0x26 && out.iter().any(|p| p.id == id) {
                if pkt == 3 && id == 0x0b {
                    r.grey("several subscription identifiers");
                } else {
                    return Err(Malformed("duplicate property"));
                }
            }
            out.push(Prop { id, v });
        }
        self.grey = r.grey;
        self.b = rest;
        Ok(out)
    }
}

/// What a byte stream starts with.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Framing {
    /// not enough bytes to know the length, or fewer than the length
    Incomplete,
    /// first frame occupies this many bytes; header occupies `.1`
    Frame(usize, usize),
    /// remaining length is not a legal variable byte integer
    Bad,
}
pub fn framing(b: &[u8]) -> Framing {
    if b.len() < 2 {
        return Framing::Incomplete;
    }
    let mut v = 0usize;
    for i in 0..4 {
        match b.get(1 + i) {
            None => return Framing::Incomplete,
            Some(x) => {
                v |= ((x & 0x7f) as usize) << (7 * i);
                if x & 0x80 == 0 {
                    let total = 2 + i + v;
                    return if b.len() < total { Framing::Incomplete } else { Framing::Frame(total, 2 + i) };
                }
            }
        }
    }
    Framing::Bad
}

/// Decode exactly one complete frame. Ok((packet, grey)).
pub fn decode(fr: &[u8]) -> Result<(P, Option<&'static str>), Bad> {
    let hl = match framing(fr) {
        Framing::Frame(t, h) if t == fr.len() => h,
        Framing::Bad => return Err(Malformed("remaining length")),
        _ => return Err(Malformed("not exactly one frame")),
    };
    let ty = fr[0] >> 4;
    let fl = fr[0] & 15;
    let mut r = R { b: &fr[hl..], grey: None };
    match ty {
        0 => return Err(Malformed("reserved packet type")),
        3 => {
            if fl & 6 == 6 {
                return Err(Malformed("QoS 3"));
            }
        }
        6 | 8 | 10 => {
            if fl != 2 {
                return Err(Malformed("reserved header flags"));
            }
        }
        _ => {
            if fl != 0 {
                return Err(Malformed("reserved header flags"));
            }
        }
    }
    let p = match ty {
        1 => {
            let name = r.str()?;
            let ver = r.u8()?;
            if name != "MQTT" || ver != 5 {
                return Err(Malformed("unsupported protocol"));
            }
            let f = r.u8()?;
            if f & 1 != 0 {
                return Err(Malformed("reserved connect flag"));
            }
            if f & 4 == 0 && f & 0x38 != 0 {
                return Err(Malformed("will flags without will"));
            }
            if f & 0x18 == 0x18 {
                return Err(Malformed("will QoS 3"));
            }
            let keep_alive = r.u16()?;
            let props = r.props(1)?;
            let client_id = r.str()?;
            let will = if f & 4 != 0 {
                let props = r.props(0)?;
                let topic = r.str()?;
                let payload = r.bin()?;
                if topic.is_empty() || topic.contains(['+', '#']) {
                    r.grey("will topic");
                }
                Some(Will { props, topic, payload, qos: (f >> 3) & 3, retain: f & 0x20 != 0 })
            } else {
                None
            };
            let username = if f & 0x80 != 0 { Some(r.str()?) } else { None };
            let password = if f & 0x40 != 0 { Some(r.bin()?) } else { None };
            P::Connect { clean: f & 2 != 0, keep_alive, props, client_id, will, username, password }
        }
        2 => {
            let f = r.u8()?;
            if f & 0xfe != 0 {
                return Err(Malformed("connack flags"));
            }
            let reason = reason(&mut r, 2)?;
            let props = r.props(2)?;
            if f & 1 != 0 && reason != 0 {
                r.grey("session present with error");
            }
            P::ConnAck { sp: f & 1 != 0, reason, props }
        }
        3 => {
            let topic = r.str()?;
            let qos = (fl >> 1) & 3;
            let pid = if qos > 0 { Some(r.u16()?) } else { None };
            if pid == Some(0) {
                r.grey("packet id 0");
            }
            if qos == 0 && fl & 8 != 0 {
                r.grey("DUP with QoS 0");
            }
            let props = r.props(3)?;
            if topic.contains(['+', '#']) {
                r.grey("wildcard in topic name");
            }
            if topic.is_empty() && !props.iter().any(|p| p.id == 0x23) {
                r.grey("empty topic without alias");
            }
            let payload = r.b.to_vec();
            r.b = &[];
            P::Publish { dup: fl & 8 != 0, qos, retain: fl & 1 != 0, topic, pid, props, payload }
        }
        4..=7 => {
            let pid = r.u16()?;
            if pid == 0 {
                r.grey("packet id 0");
            }
            let (reason, props) = tail_dec(&mut r, ty)?;
            P::Ack { kind: ty, pid, reason, props }
        }
        8 => {
            let pid = pid(&mut r)?;
            let props = r.props(8)?;
            let mut filters = vec![];
            while !r.b.is_empty() {
                let f = r.str()?;
                let o = r.u8()?;
                if f.is_empty() {
                    r.grey("empty filter");
                }
                if o & 0xc0 != 0 || o & 3 == 3 || o & 0x30 == 0x30 {
                    return Err(Malformed("subscription options"));
                }
                filters.push((f, o));
            }
            if filters.is_empty() {
                r.grey("no filters");
            }
            P::Subscribe { pid, props, filters }
        }
        10 => {
            let pid = pid(&mut r)?;
            let props = r.props(10)?;
            let mut filters = vec![];
            while !r.b.is_empty() {
                let f = r.str()?;
                if f.is_empty() {
                    r.grey("empty filter");
                }
                filters.push(f);
            }
            if filters.is_empty() {
                r.grey("no filters");
            }
            P::Unsubscribe { pid, props, filters }
        }
        9 | 11 => {
            let pid = pid(&mut r)?;
            let props = r.props(ty)?;
            let mut reasons = vec![];
            while !r.b.is_empty() {
                reasons.push(reason(&mut r, ty)?);
            }
            if reasons.is_empty() {
                r.grey("no reasons");
            }
            if ty == 9 { P::SubAck { pid, props, reasons } } else { P::UnsubAck { pid, props, reasons } }
        }
        12 => P::PingReq,
        13 => P::PingResp,
        14 => {
            let (reason, props) = tail_dec(&mut r, 14)?;
            P::Disconnect { reason, props }
        }
        15 => {
            let (reason, props) = tail_dec(&mut r, 15)?;
            P::Auth { reason, props }
        }
        _ => unreachable!(),
    };
    if !r.b.is_empty() {
        return Err(Malformed("bytes left over"));
    }
    Ok((p, r.grey))
}
fn pid(r: &mut R) -> Result<u16, Bad> {
    let p = r.u16()?;
    if p == 0 {
        r.grey("packet id 0");
    }
    Ok(p)
}
fn reason(r: &mut R, ty: u8) -> Result<u8, Bad> {
    let x = r.u8()?;
    if !REASONS.contains(&x) {
        return Err(Malformed("undefined reason code"));
    }
    if !reason_ok(ty, x) {
        r.grey("reason not allowed in this packet");
    }
    Ok(x)
}
fn tail_dec(r: &mut R, ty: u8) -> Result<(u8, Props), Bad> {
    if r.b.is_empty() {
        return Ok((0, vec![]));
    }
    let x = reason(r, ty)?;
    if r.b.is_empty() {
        return Ok((x, vec![]));
    }
    Ok((x, r.props(ty)?))
}

/// Split a byte stream into complete frames; returns (packets, undecodable tail)
pub fn parse_stream(mut b: &[u8]) -> (Vec<(P, Option<&'static str>)>, Result<usize, Bad>) {
    let mut out = vec![];
    loop {
        match framing(b) {
            Framing::Incomplete => return (out, Ok(b.len())),
            Framing::Bad => return (out, Err(Malformed("remaining length"))),
            Framing::Frame(n, _) => match decode(&b[..n]) {
                Ok(p) => {
                    out.push(p);
                    b = &b[n..]
                }
                Err(e) => return (out, Err(e)),
            },
        }
    }
}

// ------------------------------------------------------------------ topics (4.7)

/// Reference topic matcher written straight from section 4.7.
pub fn topic_matches(filter: &str, topic: &str) -> bool {
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    if topic.starts_with('$') && (f[0] == "+" || f[0] == "#") {
        return false;
    }
    fn m(f: &[&str], t: &[&str]) -> bool {
        match f.first() {
            None => t.is_empty(),
            Some(&"#") => true,
            Some(&"+") => !t.is_empty() && m(&f[1..], &t[1..]),
            Some(x) => !t.is_empty() && *x == t[0] && m(&f[1..], &t[1..]),
        }
    }
    m(&f, &t)
}

pub fn filter_valid(filter: &str) -> bool {
    if filter.is_empty() || filter.contains('\0') {
        return false;
    }
    let f: Vec<&str> = filter.split('/').collect();
    f.iter().enumerate().all(|(i, l)| {
        (*l == "+" || *l == "#" || !l.contains(['+', '#'])) && (*l != "#" || i + 1 == f.len())
    })
}
