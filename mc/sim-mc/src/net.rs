//! The harness side of connections: raw MQTT peers built on the reference codec.
use crate::explore::World;
use refmqtt::{self as rm, Form, P, PV, Prop, Props, Will};
use std::io::ErrorKind;
use tokio::sim::net::TcpStream;

pub struct Peer {
    s: Option<TcpStream>,
    rx: tokio::sim::net::Shared,
    tx: tokio::sim::net::Shared,
    pending: Vec<u8>,
    pub garbled: Option<String>,
    pub name: String,
}

impl Peer {
    pub fn from(s: TcpStream, name: &str) -> Peer {
        Peer { rx: s.rx.clone(), tx: s.tx.clone(), s: Some(s), pending: vec![], garbled: None, name: name.into() }
    }
    pub fn send_raw(&self, b: &[u8]) {
        let mut p = self.tx.lock().unwrap();
        if p.reader_gone {
            return;
        }
        p.buf.extend(b);
        p.total += b.len() as u64;
        p.wake();
    }
    pub fn send(&self, p: &P) {
        self.send_raw(&rm::encode(p, Form::Long));
    }
    /// Bytes received and not yet looked at.
    pub fn take_raw(&mut self) -> Vec<u8> {
        let mut p = self.rx.lock().unwrap();
        let v: Vec<u8> = p.buf.drain(..).collect();
        p.wake();
        v
    }
    /// All complete packets received since the last call.
    pub fn recv(&mut self) -> Vec<P> {
        let v = self.take_raw();
        self.pending.extend(v);
        let (ps, rest) = rm::parse_stream(&self.pending);
        match rest {
            Ok(left) => {
                let n = self.pending.len() - left;
                self.pending.drain(..n);
            }
            Err(e) => {
                if self.garbled.is_none() {
                    self.garbled = Some(format!("{e:?}: {}", mcbase::hexclip(&self.pending)))
                }
                self.pending.clear();
            }
        }
        ps.into_iter().map(|x| x.0).collect()
    }
    /// Whether any bytes arrived, and the packets completed by them.
    pub fn take_any(&mut self) -> (bool, Vec<P>) {
        let any = self.unread() > 0;
        (any, self.recv())
    }
    /// The other side will send nothing more.
    pub fn at_eof(&self) -> bool {
        let p = self.rx.lock().unwrap();
        p.fin && p.buf.is_empty()
    }
    /// The other side closed its sending direction or dropped the connection.
    pub fn closed(&self) -> bool {
        self.rx.lock().unwrap().fin
    }
    /// The other side dropped the connection entirely.
    pub fn gone(&self) -> bool {
        self.tx.lock().unwrap().reader_gone
    }
    pub fn close(&mut self) {
        self.s = None;
    }
    /// Only our sending direction ends.
    pub fn half_close(&self) {
        let mut p = self.tx.lock().unwrap();
        p.fin = true;
        p.wake();
    }
    /// Close where the network keeps swallowing what the other side still writes.
    pub fn close_silent_writes(&mut self) {
        self.rx.lock().unwrap().discard = true;
        self.half_close();
    }
    pub fn reset(&self) {
        {
            let mut p = self.tx.lock().unwrap();
            p.buf.clear();
            p.read_err = Some(ErrorKind::ConnectionReset);
            p.wake();
        }
        let mut p = self.rx.lock().unwrap();
        p.write_err = Some(ErrorKind::ConnectionReset);
        p.fail_after = 0;
        p.wake();
    }
    /// From now on the other side's writes fail after `n` more bytes; reads stay quiet.
    pub fn break_writes(&self, n: usize) {
        let mut p = self.rx.lock().unwrap();
        p.write_err = Some(ErrorKind::BrokenPipe);
        p.fail_after = n;
        p.wake();
    }
    /// Bytes the other side may have in flight to us.
    pub fn window(&self, n: usize) {
        let mut p = self.rx.lock().unwrap();
        p.cap = n;
        p.wake();
    }
    /// Bytes we may have in flight to the other side.
    pub fn room(&self, n: usize) {
        let mut p = self.tx.lock().unwrap();
        p.cap = n;
        p.wake();
    }
    pub fn is_windowed(&self) -> bool {
        self.rx.lock().unwrap().cap < 1 << 20
    }
    pub fn unread(&self) -> usize {
        self.rx.lock().unwrap().buf.len()
    }
}

pub fn connect(id: &str, clean: bool) -> P {
    P::Connect {
        clean,
        keep_alive: 60,
        props: vec![],
        client_id: id.into(),
        will: None,
        username: None,
        password: None,
    }
}
pub fn with_will(p: P, topic: &str, payload: &[u8], qos: u8, delay: u32) -> P {
    match p {
        P::Connect { clean, keep_alive, props, client_id, username, password, .. } => P::Connect {
            clean,
            keep_alive,
            props,
            client_id,
            username,
            password,
            will: Some(Will {
                props: if delay > 0 { vec![Prop { id: 0x18, v: PV::U32(delay) }] } else { vec![] },
                topic: topic.into(),
                payload: payload.to_vec(),
                qos,
                retain: false,
            }),
        },
        p => p,
    }
}
pub fn keep_alive(p: P, k: u16) -> P {
    match p {
        P::Connect { clean, props, client_id, username, password, will, .. } => {
            P::Connect { clean, keep_alive: k, props, client_id, username, password, will }
        }
        p => p,
    }
}
pub fn connect_props(p: P, props: Props) -> P {
    match p {
        P::Connect { clean, keep_alive, client_id, username, password, will, .. } => {
            P::Connect { clean, keep_alive, props, client_id, username, password, will }
        }
        p => p,
    }
}
pub fn subscribe(pid: u16, f: &[(&str, u8)]) -> P {
    P::Subscribe { pid, props: vec![], filters: f.iter().map(|(f, o)| (f.to_string(), *o)).collect() }
}
pub fn unsubscribe(pid: u16, f: &[&str]) -> P {
    P::Unsubscribe { pid, props: vec![], filters: f.iter().map(|f| f.to_string()).collect() }
}
pub fn publish(topic: &str, qos: u8, pid: u16, payload: &[u8]) -> P {
    P::Publish {
        dup: false,
        qos,
        retain: false,
        topic: topic.into(),
        pid: (qos > 0).then_some(pid),
        props: vec![],
        payload: payload.to_vec(),
    }
}
pub fn ack(kind: u8, pid: u16) -> P {
    P::Ack { kind, pid, reason: 0, props: vec![] }
}
pub fn disconnect(reason: u8) -> P {
    P::Disconnect { reason, props: vec![] }
}
pub fn show(p: &P) -> String {
    match p {
        P::Connect { clean, client_id, .. } => format!("CONNECT({client_id},clean={clean})"),
        P::ConnAck { sp, reason, .. } => format!("CONNACK(sp={sp},{reason:#x})"),
        P::Publish { dup, qos, topic, pid, payload, .. } => format!(
            "PUBLISH({topic},q{qos}{}{},{})",
            pid.map(|p| format!(",id{p}")).unwrap_or_default(),
            if *dup { ",dup" } else { "" },
            String::from_utf8_lossy(&payload[..payload.len().min(24)])
        ),
        P::Ack { kind, pid, reason, .. } => {
            format!("{}(id{pid}{})", rm::type_name(*kind), if *reason != 0 { format!(",{reason:#x}") } else { "".into() })
        }
        P::Subscribe { pid, filters, .. } => format!("SUBSCRIBE(id{pid},{filters:?})"),
        P::SubAck { pid, reasons, .. } => format!("SUBACK(id{pid},{reasons:x?})"),
        P::Unsubscribe { pid, filters, .. } => format!("UNSUBSCRIBE(id{pid},{filters:?})"),
        P::UnsubAck { pid, reasons, .. } => format!("UNSUBACK(id{pid},{reasons:x?})"),
        P::PingReq => "PINGREQ".into(),
        P::PingResp => "PINGRESP".into(),
        P::Disconnect { reason, .. } => format!("DISCONNECT({reason:#x})"),
        P::Auth { .. } => "AUTH".into(),
    }
}
pub fn shows(v: &[P]) -> String {
    v.iter().map(show).collect::<Vec<_>>().join(" ")
}

pub const PORT: u16 = 1883;

/// A running broker and its raw clients.
pub struct Net {
    pub peers: Vec<Peer>,
}
impl Net {
    pub fn start(w: &mut World, cfg: vaux_broker::Config) -> Net {
        Net::start_with(w, cfg, None)
    }
    /// `expiry`: the session expiry is changed once the broker runs.
    pub fn start_with(w: &mut World, cfg: vaux_broker::Config, expiry: Option<std::time::Duration>) -> Net {
        w.quiet(|w| {
            let h = w.spawn(async move {
                let mut b = vaux_broker::Broker::new_with_config(cfg);
                b.run().await.expect("broker starts");
                if let Some(e) = expiry {
                    b.set_session_expiration(e).await;
                }
                // the broker value must live on: dropping it stops the accept loop
                std::future::pending::<()>().await;
            });
            w.run();
            drop(h);
        });
        Net { peers: vec![] }
    }
    pub fn dial(&mut self, name: &str) -> Option<usize> {
        let s = TcpStream::dial(PORT)?;
        self.peers.push(Peer::from(s, name));
        Some(self.peers.len() - 1)
    }
}
pub fn config() -> vaux_broker::Config {
    vaux_broker::Config::default()
}
