//! The real client against a scripted broker, and the abstract model of its exchanges.
use crate::explore::*;
use crate::net::*;
use crate::sched::settle;
use bytes::BytesMut;
use mcbase::Ctx;
use refmqtt::{P, PV, Prop};
use std::collections::VecDeque;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::sim::net::TcpListener;
use tokio::sync::mpsc::{Receiver, Sender};
use vaux_client::client::ClientError;
use vaux_client::session::SessionState;
use vaux_client::{ClientBuilder, MqttClient, MqttConnection};
use vaux_mqtt::Packet;
use vaux_mqtt::codec::Encode;

/// A vaux packet as the reference sees it.
pub fn seen(p: &Packet) -> P {
    let mut b = BytesMut::new();
    match p.encode(&mut b) {
        Ok(_) => match refmqtt::decode(&b) {
            Ok((p, _)) => p,
            Err(e) => panic!("a packet handed to the application encodes to {}: {e:?}", mcbase::hexclip(&b)),
        },
        Err(e) => panic!("a packet handed to the application does not encode: {e:?} {p:?}"),
    }
}
pub fn to_vaux(p: &P) -> Packet {
    let mut b = BytesMut::from(&refmqtt::encode(p, refmqtt::Form::Long)[..]);
    vaux_mqtt::codec::decode(&mut b).expect("reference packet").expect("reference packet").0
}

#[derive(Default)]
pub struct Shared {
    pub client: Option<MqttClient>,
    pub starting: bool,
    /// `start`/`try_start` itself failed
    pub refused: Option<String>,
    pub outcome: Option<Result<SessionState, ClientError>>,
    pub abort: Option<tokio::task::AbortHandle>,
}
pub type How = Arc<dyn Fn(ClientBuilder) -> ClientBuilder + Send + Sync>;
pub struct Cli {
    pub lis: TcpListener,
    pub peer: Option<Peer>,
    pub prod: Option<Sender<Packet>>,
    pub cons: Option<Receiver<Packet>>,
    pub sh: Arc<Mutex<Shared>>,
}
/// One poll of a future that is ready at once.
pub fn now<T>(f: impl Future<Output = T>) -> Option<T> {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}
impl Cli {
    pub fn new() -> Cli {
        Cli { lis: TcpListener::listen(PORT).unwrap(), peer: None, prod: None, cons: None, sh: Default::default() }
    }
    /// Begins to start a client; `wait`: by try_start with this limit.
    pub fn launch(&mut self, w: &mut World, how: How, state: Option<SessionState>, clean: bool, wait: Option<u64>) {
        let conn = MqttConnection::new().with_host("127.0.0.1").with_port(PORT);
        self.launch_with(w, conn, how, state, clean, wait)
    }
    pub fn launch_with(&mut self, w: &mut World, conn: MqttConnection, how: How, state: Option<SessionState>, clean: bool, wait: Option<u64>) {
        let sh: Arc<Mutex<Shared>> = Default::default();
        sh.lock().unwrap().starting = true;
        self.sh = sh.clone();
        self.peer = None;
        let slot: Arc<Mutex<Option<(Sender<Packet>, Option<Receiver<Packet>>)>>> = Default::default();
        let s2 = slot.clone();
        w.quiet(|w| {
            let (go, gone) = tokio::sync::oneshot::channel::<()>();
            w.spawn(async move {
                let b = match state {
                    Some(s) => ClientBuilder::default().with_state(conn, s),
                    None => ClientBuilder::new(conn),
                };
                let Ok(mut c) = how(b).build().await else { return };
                *s2.lock().unwrap() = Some((c.packet_producer(), c.take_packet_consumer()));
                let _ = gone.await;
                let r = match wait {
                    None => c.start(clean).await,
                    Some(ms) => c.try_start(Duration::from_millis(ms), clean).await,
                };
                {
                    let mut s = sh.lock().unwrap();
                    s.client = Some(c);
                    s.starting = false;
                    if let Ok(h) = &r {
                        s.abort = Some(h.abort_handle());
                    }
                }
                match r {
                    Ok(h) => match h.await {
                        Ok(o) => sh.lock().unwrap().outcome = Some(o),
                        Err(e) => sh.lock().unwrap().refused = Some(format!("task ended: {e}")),
                    },
                    Err(e) => sh.lock().unwrap().refused = Some(format!("{e}")),
                }
            });
            w.run();
            let _ = go.send(());
        });
        let Some((p, c)) = slot.lock().unwrap().take() else {
            w.fail("start/build", "the client does not build");
            return;
        };
        self.prod = Some(p);
        self.cons = c;
    }
    /// The connection the client has opened, if it has.
    pub fn accept(&mut self) -> bool {
        match self.lis.try_accept() {
            Some(s) => {
                self.peer = Some(Peer::from(s, "broker"));
                true
            }
            None => false,
        }
    }
    pub fn wire(&mut self) -> Vec<P> {
        self.peer.as_mut().map(|p| p.recv()).unwrap_or_default()
    }
    pub fn app(&mut self) -> Vec<P> {
        let mut v = vec![];
        if let Some(c) = &mut self.cons {
            while let Ok(p) = c.try_recv() {
                v.push(seen(&p));
            }
        }
        v
    }
    pub fn push(&mut self, p: &P) -> bool {
        self.push_packet(to_vaux(p))
    }
    pub fn push_packet(&mut self, p: Packet) -> bool {
        self.prod.as_ref().is_some_and(|s| s.try_send(p).is_ok())
    }
    pub fn connected(&self) -> Option<bool> {
        let s = self.sh.lock().unwrap();
        s.client.as_ref().and_then(|c| now(c.connected()))
    }
    /// None: still running; otherwise whether it ended well.
    pub fn over(&self) -> Option<bool> {
        let s = self.sh.lock().unwrap();
        if s.refused.is_some() {
            return Some(false);
        }
        s.outcome.as_ref().map(|o| o.is_ok())
    }
    pub fn why(&self) -> String {
        let s = self.sh.lock().unwrap();
        match (&s.refused, &s.outcome) {
            (Some(r), _) => format!("refused: {r}"),
            (_, Some(Ok(_))) => "stopped".into(),
            (_, Some(Err(e))) => format!("error: {}", e.mqtt_error),
            _ => "running".into(),
        }
    }
    pub fn take_state(&mut self) -> Option<SessionState> {
        let mut s = self.sh.lock().unwrap();
        s.client = None;
        match s.outcome.take() {
            Some(Ok(st)) => Some(st),
            Some(Err(e)) => Some(e.state),
            None => None,
        }
    }
}
pub fn connack(sp: bool, props: Vec<Prop>) -> P {
    P::ConnAck { sp, reason: 0, props }
}
pub fn pr(id: u8, v: PV) -> Prop {
    Prop { id, v }
}

// ------------------------------------------------------------------ model

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    /// PUBLISH sent, PUBACK or PUBREC awaited
    Sent,
    /// PUBREC received, the application has not yet sent PUBREL (manual)
    Recd,
    /// PUBREL sent
    Released,
}
#[derive(Clone, Debug)]
pub struct Ex {
    pub id: u16,
    pub qos: u8,
    pub st: St,
    pub what: String,
    /// order of sending, of being received
    pub seq: u32,
}
#[derive(Clone, Debug)]
pub struct Wait {
    qos: u8,
    what: String,
    id: Option<u16>,
    resend: bool,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum AckOf {
    /// n-th unfinished outgoing exchange
    Nth(usize),
    /// identifier of no exchange
    Unknown,
    /// the identifier of the exchange finished last
    Done,
}
#[derive(Clone, Debug)]
pub enum COp {
    Pub(u8),
    /// with an identifier of the application's choice; `None` of the second: that of the n-th exchange
    PubId(u8, u16),
    PubClash(u8, usize),
    Ack(AckOf),
    Rec(AckOf, u8),
    Comp(AckOf),
    /// incoming PUBLISH: quality, identifier, DUP
    In(u8, u16, bool),
    Rel(u16),
    /// the application's own acknowledgement of an incoming message
    AppAck(u8, u16, u8),
    /// the application's own PUBREL for the n-th outgoing exchange
    AppRel(AckOf),
    PingResp,
    SubAck,
    AppPing,
    AppSub,
    /// connection ends and the client restarts from its state; session present or not; new receive maximum
    Lose(Loss, bool, Option<u16>),
    Stop,
    /// the client has ended (after an error or by itself): it restarts from its state; session present or not
    Again(bool),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Loss {
    Close,
    Reset,
    ServerDisconnect,
    Stop,
}
pub struct Setup {
    pub auto_ack: bool,
    pub auto_id: bool,
    pub recv_max: Option<u16>,
    pub broker_max: Option<u16>,
    pub how: How,
}
impl Default for Setup {
    fn default() -> Self {
        Setup { auto_ack: true, auto_id: true, recv_max: None, broker_max: None, how: Arc::new(|b| b) }
    }
}
impl Setup {
    fn all(&self) -> How {
        let (a, i, r, h) = (self.auto_ack, self.auto_id, self.recv_max, self.how.clone());
        Arc::new(move |b| {
            let b = b.with_auto_ack(a).with_auto_packet_id(i).with_client_id("cli");
            h(match r {
                Some(r) => b.with_receive_max(r),
                None => b,
            })
        })
    }
}
pub struct CSys {
    pub c: Cli,
    set: Setup,
    pub out: Vec<Ex>,
    wait: VecDeque<Wait>,
    /// incoming exchanges: (identifier, quality, application has sent PUBREC)
    inc: Vec<(u16, u8, bool)>,
    max: usize,
    pub alive: bool,
    n: u32,
    seq: u32,
    done: Option<u16>,
}
impl CSys {
    pub fn new(w: &mut World, set: Setup) -> CSys {
        let mut s = CSys {
            c: Cli::new(),
            max: 65535,
            set,
            out: vec![],
            wait: VecDeque::new(),
            inc: vec![],
            alive: false,
            n: 0,
            seq: 0,
            done: None,
        };
        let bm = s.set.broker_max;
        s.begin(w, None, true, false, bm);
        s
    }
    fn begin(&mut self, w: &mut World, state: Option<SessionState>, clean: bool, sp: bool, max: Option<u16>) {
        let fresh = state.is_none();
        self.c.launch(w, self.set.all(), state, clean, None);
        if w.dead {
            return;
        }
        settle(w);
        if !self.c.accept() {
            w.fail("start/connect", format!("the client does not connect: {}", self.c.why()));
            return;
        }
        let v = self.c.wire();
        match &v[..] {
            [P::Connect { client_id, clean: cl, .. }] if client_id == "cli" && *cl == clean => {}
            _ => {
                w.fail("start/connect", format!("instead of CONNECT(cli,clean={clean}) the client sends {}", shows(&v)));
                return;
            }
        }
        let props = max.map(|m| pr(0x21, PV::U16(m))).into_iter().collect();
        self.c.peer.as_ref().unwrap().send(&connack(sp, props));
        self.max = max.unwrap_or(65535) as usize;
        let _ = fresh;
        settle(w);
        self.alive = true;
    }
    fn free(&self) -> usize {
        self.max.saturating_sub(self.out.len())
    }
    fn nth(&self, a: AckOf) -> Option<u16> {
        match a {
            AckOf::Nth(n) => self.out.get(n).map(|e| e.id),
            AckOf::Unknown => Some(50_000),
            AckOf::Done => self.done.filter(|d| !self.out.iter().any(|e| e.id == *d)),
        }
    }
    pub fn enabled(&self, o: &COp) -> bool {
        if let COp::Again(_) = o {
            return !self.alive && self.c.sh.lock().unwrap().outcome.is_some();
        }
        if !self.alive {
            return false;
        }
        match o {
            COp::Ack(a) | COp::Rec(a, _) | COp::Comp(a) => self.nth(*a).is_some(),
            COp::AppRel(a) => !self.set.auto_ack && self.nth(*a).is_some_and(|id| self.out.iter().any(|e| e.id == id && e.st == St::Recd)),
            COp::PubClash(_, n) => self.out.len() > *n && self.free() > 0 && self.wait.is_empty(),
            COp::PubId(_, id) => {
                // a clash is the business of PubClash; a waiting message may be given any identifier
                (self.wait.is_empty() && self.free() > 0 || !self.set.auto_id && !self.wait.iter().any(|x| x.id == Some(*id)))
                    && !self.out.iter().any(|e| e.id == *id)
            }
            COp::AppAck(k, id, _) => {
                !self.set.auto_ack
                    && self.inc.iter().any(|x| {
                        x.0 == *id
                            && match k {
                                4 => x.1 == 1,
                                5 => x.1 == 2 && !x.2,
                                _ => x.1 == 2 && x.2,
                            }
                    })
            }
            // the broker keeps to its side: an identifier in use is not used for another quality
            COp::In(q, id, dup) => {
                let x = self.inc.iter().find(|x| x.0 == *id);
                let room = self.inc.len() < self.set.recv_max.unwrap_or(65535) as usize;
                // (what is a repetition for the broker may be the first that the client sees)
                *q == 0 || (x.is_none() && room) || (*dup && x.is_some_and(|x| x.1 == *q))
            }
            COp::Rel(id) => self.set.auto_ack || self.inc.iter().any(|x| x.0 == *id && x.1 == 2 && x.2),
            _ => true,
        }
    }
    /// What the client must now send because there is room.
    fn drain(&mut self, want: &mut Vec<P>) {
        while self.free() > 0 {
            let Some(x) = self.wait.pop_front() else { break };
            want.push(P::Publish { dup: x.resend, qos: x.qos, retain: false, topic: "t".into(), pid: x.id, props: vec![], payload: x.what.clone().into_bytes() });
            self.seq += 1;
            self.out.push(Ex { id: x.id.unwrap_or(0), qos: x.qos, st: St::Sent, what: x.what, seq: self.seq });
        }
    }
    pub fn step(&mut self, w: &mut World, o: &COp) {
        // want: packets on the wire (pid None of QoS>0: any free one), app: packets for the application
        let (mut want, mut app): (Vec<P>, Vec<P>) = (vec![], vec![]);
        let mut error = false;
        // optional on the application's side
        let mut maybe: Vec<P> = vec![];
        let what = format!("m{}", self.n);
        let mut done = self.done;
        match o {
            COp::Pub(q) => {
                self.n += 1;
                self.c.push_packet(app_publish(*q, &what, None));
                if *q == 0 {
                    want.push(publish("t", 0, 0, what.as_bytes()));
                } else if !self.set.auto_id {
                    error = true;
                } else {
                    self.wait.push_back(Wait { qos: *q, what, id: None, resend: false });
                    self.drain(&mut want);
                }
            }
            COp::PubId(q, id) => {
                self.n += 1;
                self.c.push_packet(app_publish(*q, &what, Some(*id)));
                if *id == 0 {
                    error = true;
                } else {
                    self.wait.push_back(Wait { qos: *q, what, id: Some(*id), resend: false });
                    self.drain(&mut want);
                }
            }
            COp::PubClash(q, n) => {
                self.n += 1;
                let id = self.out[*n].id;
                self.c.push_packet(app_publish(*q, &what, Some(id)));
                error = true;
            }
            COp::Ack(a) => {
                let id = self.nth(*a).unwrap();
                self.c.peer.as_ref().unwrap().send(&ack(4, id));
                match self.out.iter().position(|e| e.id == id && e.qos == 1) {
                    Some(i) => {
                        self.out.remove(i);
                        done = Some(id);
                        app.push(ack(4, id));
                        self.drain(&mut want);
                    }
                    None => error = true,
                }
            }
            COp::Rec(a, r) => {
                let id = self.nth(*a).unwrap();
                let p = P::Ack { kind: 5, pid: id, reason: *r, props: vec![] };
                self.c.peer.as_ref().unwrap().send(&p);
                match self.out.iter().position(|e| e.id == id && e.qos == 2 && e.st == St::Sent) {
                    Some(i) if *r >= 0x80 => {
                        self.out.remove(i);
                        done = Some(id);
                        app.push(p);
                        self.drain(&mut want);
                    }
                    Some(i) => {
                        app.push(p);
                        self.seq += 1;
                        self.out[i].seq = self.seq;
                        if self.set.auto_ack {
                            want.push(ack(6, id));
                            self.out[i].st = St::Released;
                        } else {
                            self.out[i].st = St::Recd;
                        }
                    }
                    None => error = true,
                }
            }
            COp::Comp(a) => {
                let id = self.nth(*a).unwrap();
                self.c.peer.as_ref().unwrap().send(&ack(7, id));
                match self.out.iter().position(|e| e.id == id && e.st == St::Released) {
                    Some(i) => {
                        self.out.remove(i);
                        done = Some(id);
                        app.push(ack(7, id));
                        self.drain(&mut want);
                    }
                    None => error = true,
                }
            }
            COp::AppRel(a) => {
                let id = self.nth(*a).unwrap();
                self.c.push(&ack(6, id));
                want.push(ack(6, id));
                let i = self.out.iter().position(|e| e.id == id).unwrap();
                self.out[i].st = St::Released;
            }
            COp::In(q, id, dup) => {
                self.n += 1;
                let p = P::Publish { dup: *dup, qos: *q, retain: false, topic: "t".into(), pid: (*q > 0).then_some(*id), props: vec![], payload: what.into_bytes() };
                self.c.peer.as_ref().unwrap().send(&p);
                let known = self.inc.iter().any(|x| x.0 == *id);
                match q {
                    0 => app.push(p),
                    1 => {
                        app.push(p);
                        if self.set.auto_ack {
                            want.push(ack(4, *id));
                        } else if !known {
                            self.inc.push((*id, 1, false));
                        }
                    }
                    _ => {
                        if self.set.auto_ack {
                            want.push(ack(5, *id));
                        }
                        if !known {
                            self.inc.push((*id, 2, self.set.auto_ack));
                        }
                        if !known || !self.set.auto_ack {
                            app.push(p);
                        }
                    }
                }
            }
            COp::Rel(id) => {
                self.c.peer.as_ref().unwrap().send(&ack(6, *id));
                let known = self.inc.iter().any(|x| x.0 == *id && x.1 == 2);
                if self.set.auto_ack {
                    want.push(ack(7, *id));
                    self.inc.retain(|x| x.0 != *id);
                }
                if known {
                    app.push(ack(6, *id));
                } else {
                    maybe.push(ack(6, *id));
                }
            }
            COp::AppAck(k, id, r) => {
                let p = P::Ack { kind: *k, pid: *id, reason: *r, props: vec![] };
                self.c.push(&p);
                want.push(p);
                if *k == 5 && *r < 0x80 {
                    self.inc.iter_mut().find(|x| x.0 == *id).unwrap().2 = true;
                } else {
                    self.inc.retain(|x| x.0 != *id);
                }
            }
            COp::PingResp => self.c.peer.as_ref().unwrap().send(&P::PingResp),
            COp::SubAck => {
                let p = P::SubAck { pid: 3, props: vec![], reasons: vec![1] };
                self.c.peer.as_ref().unwrap().send(&p);
                app.push(p);
            }
            COp::AppPing => {
                self.c.push(&P::PingReq);
                want.push(P::PingReq);
            }
            COp::AppSub => {
                let p = subscribe(60_000, &[("t", 1)]);
                self.c.push(&p);
                want.push(p);
            }
            COp::Stop => {
                self.c.push(&disconnect(0));
                want.push(disconnect(0));
            }
            COp::Lose(how, sp, max) => return self.lose(w, *how, *sp, *max),
            COp::Again(sp) => {
                self.c.wire();
                return self.after_loss(w, "the end", *sp, None);
            }
        }
        self.done = done;
        w.run_or_stop();
        settle(w);
        self.judge(w, &format!("{o:?}"), want, app, maybe, error, matches!(o, COp::Stop));
    }
    #[allow(clippy::too_many_arguments)]
    fn judge(&mut self, w: &mut World, o: &str, mut want: Vec<P>, app: Vec<P>, maybe: Vec<P>, error: bool, stop: bool) {
        let got = self.c.wire();
        let mut handed = self.c.app();
        w.note(format!("{o}: client sends {}, application gets {}, {}", shows(&got), shows(&handed), self.c.why()));
        if let Some(m) = mcbase::take_panic() {
            w.fail("panic/panic", format!("{o}: {m}"));
            return;
        }
        if let Some(g) = self.c.peer.as_ref().and_then(|p| p.garbled.clone()) {
            w.fail("garbled/garbled", format!("{o}: {g}"));
            return;
        }
        let over = self.c.over();
        if error {
            let sent: Vec<&P> = got.iter().filter(|p| !matches!(p, P::Disconnect { reason: 0x80.., .. })).collect();
            if !sent.is_empty() {
                w.fail("wire/after-error", format!("{o}: must be reported and nothing sent, but the client sends {}", shows(&got)));
            } else if over != Some(false) {
                w.fail("error/unreported", format!("{o}: must be reported as an error, but the client is {}", self.c.why()));
            } else if self.c.connected() == Some(true) {
                w.fail("error/connected", format!("{o}: ended with an error, but still says it is connected"));
            }
            self.alive = false;
            return;
        }
        // identifiers the client chose
        for (i, p) in want.iter_mut().enumerate() {
            if let P::Publish { pid: pid @ None, qos: 1.., payload, .. } = p {
                if let Some(P::Publish { pid: Some(x), payload: pl, .. }) = got.get(i) {
                    if pl == payload {
                        let me = String::from_utf8_lossy(payload).to_string();
                        if *x == 0 || self.out.iter().any(|e| e.id == *x && e.what != me) {
                            w.fail("id/in-use", format!("{o}: {me} is sent with identifier {x}, in use are {:?}", self.out));
                            return;
                        }
                        *pid = Some(*x);
                        if let Some(e) = self.out.iter_mut().find(|e| e.what == me) {
                            e.id = *x;
                        }
                    }
                }
            }
        }
        if canon(&got) != canon(&want) {
            let kind = if self.out.len() + self.wait.len() > self.max { "quota" } else { "wire" };
            w.fail(
                &format!("{kind}/{}", o.split(['(', ' ']).next().unwrap_or("")),
                format!("{o}: the client must send {} but sends {}; unfinished {:?}, waiting {}, receive maximum {}, client {}", shows(&want), shows(&got), self.out, self.wait.len(), self.max, self.c.why()),
            );
            return;
        }
        for m in maybe {
            if let Some(i) = handed.iter().position(|p| *p == m) {
                handed.remove(i);
            }
        }
        if canon(&handed) != canon(&app) {
            w.fail(
                &format!("app/{}", o.split(['(', ' ']).next().unwrap_or("")),
                format!("{o}: the application must be given {} but gets {}", shows(&app), shows(&handed)),
            );
            return;
        }
        match (over, stop) {
            (None, false) | (Some(true), true) => {}
            _ => w.fail(if stop { "stop/outcome" } else { "alive/ended" }, format!("{o}: afterwards the client is {}", self.c.why())),
        }
        if stop {
            self.alive = false;
            if self.c.connected() == Some(true) {
                w.fail("stop/connected", "stopped, but still says it is connected");
            }
            if !self.c.peer.as_ref().is_some_and(|p| p.closed() || p.gone()) {
                w.fail("stop/open", "stopped, but its connection is still open");
            }
        } else if !w.dead && self.c.connected() != Some(true) {
            w.fail("alive/flag", format!("{o}: the client is connected, but says it is not"));
        }
    }
    fn lose(&mut self, w: &mut World, how: Loss, sp: bool, max: Option<u16>) {
        let p = self.c.peer.as_mut().unwrap();
        match how {
            Loss::Close => p.close(),
            Loss::Reset => p.reset(),
            Loss::ServerDisconnect => p.send(&disconnect(0x8b)),
            Loss::Stop => {
                self.c.push(&disconnect(0));
            }
        }
        settle(w);
        self.after_loss(w, &format!("{how:?}"), sp, max);
    }
    /// The connection is gone: restart from the state handed back.
    pub fn after_loss(&mut self, w: &mut World, o: &str, sp: bool, max: Option<u16>) {
        if let Some(m) = mcbase::take_panic() {
            w.fail("panic/panic", format!("{o}: {m}"));
            return;
        }
        if self.c.over().is_none() {
            w.fail("loss/running", format!("{o}: the client goes on although its connection has ended"));
            return;
        }
        let Some(state) = self.c.take_state() else {
            w.fail("loss/state", format!("{o}: no session state is handed back: {}", self.c.why()));
            return;
        };
        if sp {
            // releases in the order of their PUBREC, messages in their order
            let mut again: Vec<Ex> = self.out.iter().filter(|e| e.st == St::Sent).cloned().collect();
            again.sort_by_key(|e| e.seq);
            self.out.retain(|e| e.st != St::Sent);
            for e in again.into_iter().rev() {
                self.wait.push_front(Wait { qos: e.qos, what: e.what, id: (e.id != 0).then_some(e.id), resend: true });
            }
        } else {
            self.out.clear();
            self.inc.clear();
            self.wait.retain(|x| !x.resend);
        }
        self.begin(w, Some(state), false, sp, max);
        if w.dead {
            return;
        }
        let mut want = vec![];
        let mut rel: Vec<&Ex> = self.out.iter().filter(|e| e.st == St::Released).collect();
        rel.sort_by_key(|e| e.seq);
        for e in rel {
            want.push(ack(6, e.id));
        }
        self.drain(&mut want);
        self.judge(w, &format!("{o} and restart with session present {sp}"), want, vec![], vec![], false, false);
    }
}
pub fn canon(v: &[P]) -> Vec<P> {
    v.iter().cloned().map(|p| p.canon()).collect()
}
/// A PUBLISH as an application builds it: no identifier unless given.
pub fn app_publish(qos: u8, what: &str, id: Option<u16>) -> Packet {
    let mut x = vaux_mqtt::Publish::default();
    x.topic_name = "t".into();
    x.payload = Some(what.as_bytes().to_vec().into());
    x.set_qos(vaux_mqtt::QoSLevel::try_from(qos).unwrap());
    if id.is_some() {
        x.set_packet_id(id).unwrap();
    }
    Packet::Publish(x)
}

pub struct CHist<'a> {
    pub name: &'static str,
    pub set: &'a (dyn Fn(&mut World) -> Setup + Sync),
    pub first: Vec<COp>,
    pub alphabet: Vec<COp>,
    pub depth: usize,
    pub probe: Vec<COp>,
    pub x: Cfg,
}
pub fn chist(ctx: &Ctx, h: &CHist) {
    explore(ctx, h.name, h.x, &|w| {
        let set = (h.set)(w);
        let mut s = w.quiet(|w| {
            let mut s = CSys::new(w, set);
            for o in &h.first {
                if !w.dead && s.enabled(o) {
                    s.step(w, o);
                }
            }
            s
        });
        for _ in 0..h.depth {
            if w.dead {
                return;
            }
            let en: Vec<&COp> = h.alphabet.iter().filter(|o| s.enabled(o)).collect();
            if en.is_empty() {
                break;
            }
            let k = w.pick(en.len());
            s.step(w, en[k]);
        }
        w.quiet(|w| {
            for o in &h.probe {
                if w.dead {
                    return;
                }
                if s.enabled(o) {
                    s.step(w, o)
                }
            }
        });
    });
}

fn plain() -> CHist<'static> {
    CHist { name: "", set: &|_| Setup::default(), first: vec![], alphabet: vec![], depth: 0, probe: vec![], x: Cfg::NONE }
}
use AckOf::*;
use COp::*;

// ------------------------------------------------------------------ L01

/// Many messages, all acknowledged but those at some positions; the counter wraps.
fn wrap(ctx: &Ctx, deep: bool) {
    let left: Vec<Vec<usize>> = {
        let mut v = vec![vec![], vec![0], vec![1], vec![0, 1], vec![2, 0], vec![65_533], vec![65_534], vec![65_533, 65_534, 0]];
        if deep {
            v.extend([vec![0, 1, 2, 3], vec![65_535], vec![65_536], vec![100, 40_000], vec![65_534, 65_535, 65_536], vec![3, 1]]);
        }
        v
    };
    explore(ctx, "wrap", Cfg::NONE, &|w| {
        let q = 1 + w.pick(2) as u8;
        let left = &left[w.pick(left.len())];
        // an exchange with an identifier of the application's choice stays open
        let own = [None, Some(1), Some(65_535)][w.pick(3)];
        let reverse = w.pick(2) == 1;
        let mut s = CSys::new(w, Setup::default());
        if let Some(id) = own {
            s.step(w, &PubId(1, id));
        }
        let mut used: std::collections::HashMap<u16, usize> = own.map(|i| (i, usize::MAX)).into_iter().collect();
        let total = if deep { 140_000 } else { 66_000 };
        let mut k = 0usize;
        while k < total && !w.dead {
            let batch = 100.min(total - k);
            for i in 0..batch {
                if !s.c.push_packet(app_publish(q, &format!("{}", k + i), None)) {
                    w.fail("wrap/full", "the client no longer takes messages");
                    return;
                }
            }
            w.run();
            w.run();
            let mut v = s.c.wire();
            s.c.app();
            if v.len() != batch {
                w.fail("wrap/missing", format!("{} of {batch} messages after {k} are sent; client {}", v.len(), s.c.why()));
                return;
            }
            if reverse {
                v.reverse();
            }
            for p in &v {
                let P::Publish { pid: Some(id), payload, qos, dup: false, .. } = p else {
                    w.fail("wrap/packet", format!("instead of a PUBLISH the client sends {}", show(p)));
                    return;
                };
                let n: usize = String::from_utf8_lossy(payload).parse().unwrap();
                if *id == 0 || used.contains_key(id) || *qos != q {
                    w.fail("id/in-use", format!("message {n} is sent with identifier {id}; unfinished are {used:?}"));
                    return;
                }
                used.insert(*id, n);
            }
            for p in &v {
                let P::Publish { pid: Some(id), payload, .. } = p else { unreachable!() };
                let n: usize = String::from_utf8_lossy(payload).parse().unwrap();
                if left.contains(&n) {
                    continue;
                }
                used.remove(id);
                let b = s.c.peer.as_ref().unwrap();
                if q == 1 {
                    b.send(&ack(4, *id));
                } else {
                    b.send(&ack(5, *id));
                    b.send(&ack(7, *id));
                }
                if w.rec.borrow().points.len() > 1 << 20 {
                    return;
                }
            }
            // in pieces that the application's queue can hold
            w.run();
            s.c.app();
            w.run();
            s.c.app();
            w.run();
            let _ = s.c.wire();
            k += batch;
        }
        w.note(format!("{total} messages of QoS {q}, {left:?} left, own {own:?}"));
    });
}
pub fn l01(ctx: &Ctx) {
    ctx.rule("every history of messages with automatic and own identifiers and of acknowledgements to the stated depth; 66,000 (140,000) messages with every listed pattern of unacknowledged ones across the wrap of the identifiers");
    let deep = ctx.thorough;
    chist(
        ctx,
        &CHist {
            name: "identifiers",
            set: &|w| {
                let (auto_id, broker_max) = [(true, None), (false, None), (false, Some(1))][w.pick(3)];
                Setup { auto_id, broker_max, ..Default::default() }
            },
            alphabet: vec![Pub(1), Pub(2), PubId(1, 1), PubId(2, 2), PubId(1, 3), PubId(1, 0), PubId(2, 0), PubClash(1, 0), PubClash(2, 1), Ack(Nth(0)), Ack(Nth(1)), Rec(Nth(0), 0), Comp(Nth(0))],
            depth: if deep { 7 } else { 5 },
            probe: vec![Pub(1), Pub(2), Ack(Nth(0)), Rec(Nth(1), 0), Comp(Nth(1)), Again(true), Rec(Nth(0), 0), Comp(Nth(0)), Pub(1)],
            ..plain()
        },
    );
    chist(
        ctx,
        &CHist {
            name: "identifiers kept over a loss",
            alphabet: vec![Pub(1), Pub(2), PubId(1, 1), PubId(2, 3), Ack(Nth(0)), Rec(Nth(0), 0), Lose(Loss::Close, true, None), Lose(Loss::Close, false, None), Lose(Loss::Stop, true, Some(1))],
            depth: if deep { 7 } else { 5 },
            probe: vec![Pub(1), Pub(2)],
            ..plain()
        },
    );
    wrap(ctx, deep);
    all_used(ctx);
}
/// All 65,535 identifiers in use, more messages waiting; then some are freed.
fn all_used(ctx: &Ctx) {
    explore(ctx, "all identifiers in use", Cfg::NONE, &|w| {
        let free: &[usize] = [&[0usize, 1, 2][..], &[65_534, 0, 300], &[40_000, 2, 65_533]][w.pick(3)];
        // the counter does not start at 1
        let before = [0usize, 1, 40_000][w.pick(3)];
        let q = 1 + w.pick(2) as u8;
        let mut s = CSys::new(w, Setup::default());
        let mut ids: Vec<u16> = vec![];
        let mut k = 0;
        let total = before + 65_535 + free.len();
        while k < total && !w.dead {
            let batch = if k < before { 100.min(before - k) } else { 100.min(total - k) };
            for i in 0..batch {
                if !s.c.push_packet(app_publish(q, &format!("{}", k + i), None)) {
                    w.fail("wrap/full", "the client no longer takes messages");
                    return;
                }
            }
            w.run();
            w.run();
            let v = s.c.wire();
            s.c.app();
            let want = batch.min((before + 65_535).saturating_sub(k));
            if v.len() != want || s.c.over().is_some() {
                w.fail("wrap/missing", format!("{} of {want} messages after {k} are sent; client {}", v.len(), s.c.why()));
                return;
            }
            for p in &v {
                let P::Publish { pid: Some(id), .. } = p else {
                    w.fail("wrap/packet", format!("instead of a PUBLISH the client sends {}", show(p)));
                    return;
                };
                if k < before {
                    let b = s.c.peer.as_ref().unwrap();
                    b.send(&ack(if q == 1 { 4 } else { 5 }, *id));
                    if q == 2 {
                        b.send(&ack(7, *id));
                    }
                } else {
                    ids.push(*id);
                }
            }
            w.run();
            s.c.app();
            w.run();
            s.c.app();
            w.run();
            s.c.wire();
            k += batch;
        }
        if w.dead {
            return;
        }
        let mut u = ids.clone();
        u.sort();
        u.dedup();
        if u.len() != 65_535 || u[0] == 0 {
            w.fail("id/in-use", format!("65,535 unfinished messages have {} different identifiers from {}", u.len(), u[0]));
            return;
        }
        let mut freed = vec![];
        for i in free {
            let b = s.c.peer.as_ref().unwrap();
            b.send(&ack(if q == 1 { 4 } else { 5 }, ids[*i]));
            if q == 2 {
                b.send(&ack(7, ids[*i]));
            }
            freed.push(ids[*i]);
            settle(w);
            s.c.app();
            let v = s.c.wire();
            let got: Vec<u16> = v.iter().filter_map(|p| if let P::Publish { pid: Some(i), .. } = p { Some(*i) } else { None }).collect();
            if got.len() != 1 || got[0] != *freed.last().unwrap() {
                w.fail("id/in-use", format!("only {:?} is free, the client sends {}; {}", freed.last(), shows(&v), s.c.why()));
                return;
            }
        }
        w.note(format!("{before} messages before, freed {free:?}"));
    });
}

// ------------------------------------------------------------------ L02

pub fn l02(ctx: &Ctx) {
    ctx.rule("every history of messages and of successful, failing, repeated and misdirected acknowledgements to the stated depth");
    let deep = ctx.thorough;
    chist(
        ctx,
        &CHist {
            name: "exchanges",
            alphabet: vec![
                Pub(1), Pub(2),
                Ack(Nth(0)), Ack(Nth(1)), Ack(Unknown), Ack(Done),
                Rec(Nth(0), 0), Rec(Nth(1), 0), Rec(Nth(0), 0x10), Rec(Nth(0), 0x80), Rec(Nth(1), 0x97), Rec(Unknown, 0), Rec(Done, 0),
                Comp(Nth(0)), Comp(Nth(1)), Comp(Unknown), Comp(Done),
            ],
            depth: if deep { 7 } else { 5 },
            // after an error the exchanges go on with a new connection
            probe: vec![Again(true), Rec(Nth(1), 0), Pub(2), Ack(Nth(0)), Again(true), Rec(Nth(0), 0), Comp(Nth(0)), Pub(1), Ack(Nth(0)), Comp(Nth(0)), Again(true)],
            ..plain()
        },
    );
    chist(
        ctx,
        &CHist {
            name: "three exchanges",
            first: vec![Pub(2), Pub(1), Pub(2)],
            alphabet: vec![Pub(2), Ack(Nth(0)), Ack(Nth(1)), Ack(Nth(2)), Rec(Nth(0), 0), Rec(Nth(1), 0), Rec(Nth(2), 0), Rec(Nth(2), 0x83), Comp(Nth(0)), Comp(Nth(1)), Comp(Nth(2)), AppSub, PingResp],
            depth: if deep { 7 } else { 5 },
            ..plain()
        },
    );
    chist(
        ctx,
        &CHist {
            name: "exchanges under schedules",
            alphabet: vec![Pub(0), Pub(1), Pub(2), Ack(Nth(0)), Rec(Nth(0), 0), Comp(Nth(0)), In(2, 1, false), Rel(1)],
            depth: if deep { 4 } else { 3 },
            x: Cfg::all(if deep { 2 } else { 1 }),
            ..plain()
        },
    );
}

// ------------------------------------------------------------------ L03

pub fn l03(ctx: &Ctx) {
    ctx.rule("every history of new and repeated PUBLISH and PUBREL over two identifiers, with the client's own messages and losses of the connection between, to the stated depth");
    let deep = ctx.thorough;
    chist(
        ctx,
        &CHist {
            name: "incoming",
            set: &|w| Setup { recv_max: [None, Some(2), Some(1)][w.pick(3)], ..Default::default() },
            alphabet: vec![In(0, 0, false), In(1, 1, false), In(2, 1, false), In(2, 1, true), In(2, 2, false), In(2, 2, true), Rel(1), Rel(2), Pub(2)],
            depth: if deep { 7 } else { 5 },
            probe: vec![In(2, 1, true), Rel(1), Rel(1), In(2, 1, false), Rel(1), In(1, 1, false)],
            ..plain()
        },
    );
    chist(
        ctx,
        &CHist {
            name: "incoming and losses",
            alphabet: vec![In(1, 1, false), In(2, 1, false), In(2, 1, true), Rel(1), Lose(Loss::Close, true, None), Lose(Loss::Reset, false, None), Pub(2)],
            depth: if deep { 7 } else { 6 },
            probe: vec![In(2, 1, true), Rel(1), In(2, 1, false)],
            ..plain()
        },
    );
    // very many messages unfinished at once: repeated, none is handed over again
    explore(ctx, "thousands unfinished", Cfg::NONE, &|w| {
        let n: u16 = if deep { [300u16, 1_100, 5_000, 40_000, 65_535][w.pick(5)] } else { [300u16, 1_100, 5_000][w.pick(3)] };
        let (down, resumed) = (w.pick(2) == 1, w.pick(2) == 1);
        let what = format!("{n} messages of QoS 2, identifiers {}, {}", if down { "descending" } else { "ascending" }, if resumed { "resumed" } else { "on one connection" });
        let ids: Vec<u16> = if down { (1..=n).rev().collect() } else { (1..=n).collect() };
        let mut c = Cli::new();
        let begin = |w: &mut World, c: &mut Cli, state: Option<SessionState>, sp: bool| -> bool {
            c.launch(w, Arc::new(|b: ClientBuilder| b.with_client_id("cli")), state, false, None);
            settle(w);
            if w.dead || !c.accept() {
                w.fail("start/connect", format!("{what}: the client does not connect: {}", c.why()));
                return false;
            }
            c.wire();
            c.peer.as_ref().unwrap().send(&connack(sp, vec![]));
            settle(w);
            true
        };
        if !begin(w, &mut c, None, false) {
            return;
        }
        let mut seen = vec![0usize; n as usize + 1];
        // sends `what` for all identifiers; each must be answered with `kind`
        let mut round = |w: &mut World, c: &mut Cli, name: &str, kind: u8, make: &dyn Fn(u16) -> P| -> bool {
            let mut done = 0;
            for b in ids.chunks(50) {
                for id in b {
                    c.peer.as_ref().unwrap().send(&make(*id));
                }
                settle(w);
                let mut got: Vec<u16> = vec![];
                loop {
                    let v = c.app();
                    if v.is_empty() {
                        break;
                    }
                    for p in v {
                        if let P::Publish { payload, .. } = p {
                            seen[String::from_utf8_lossy(&payload).parse::<usize>().unwrap_or(0)] += 1;
                        }
                    }
                    settle(w);
                }
                for p in c.wire() {
                    match p {
                        P::Ack { kind: k, pid, .. } if k == kind => got.push(pid),
                        p => {
                            w.fail("wire/order", format!("{what}, {name}: the client sends {}", show(&p)));
                            return false;
                        }
                    }
                }
                if got != b {
                    w.fail("ack/missing", format!("{what}, {name}: after {done} messages, of 50 more {} are answered: {}", got.len(), c.why()));
                    return false;
                }
                done += b.len();
            }
            let bad = (1..=n as usize).find(|i| seen[*i] != 1);
            if let Some(i) = bad {
                w.fail("app/again", format!("{what}, {name}: message {i} was handed over {} times", seen[i]));
            }
            bad.is_none()
        };
        let publish = |dup: bool| {
            move |id: u16| {
                let mut p = publish("t", 2, id, format!("{id}").as_bytes());
                if let P::Publish { dup: d, .. } = &mut p {
                    *d = dup
                }
                p
            }
        };
        if !round(w, &mut c, "first sent", 5, &publish(false)) {
            return;
        }
        if resumed {
            c.peer.as_mut().unwrap().close();
            settle(w);
            let Some(st) = c.take_state() else {
                w.fail("resume/state", format!("{what}: no session state is handed back: {}", c.why()));
                return;
            };
            if !begin(w, &mut c, Some(st), true) {
                return;
            }
        }
        let _ = round(w, &mut c, "repeated", 5, &publish(true)) && round(w, &mut c, "released", 7, &|id| ack(6, id));
        w.note(what.clone());
    });
}

// ------------------------------------------------------------------ L04

pub fn l04(ctx: &Ctx) {
    ctx.rule("every history of messages and acknowledgements with receive maximum 1, 2, 3 and none, changed by a restart or not, to the stated depth");
    let deep = ctx.thorough;
    chist(
        ctx,
        &CHist {
            name: "receive maximum",
            set: &|w| Setup { broker_max: [Some(1), Some(2), Some(3), None][w.pick(4)], ..Default::default() },
            alphabet: vec![Pub(0), Pub(1), Pub(2), Ack(Nth(0)), Ack(Nth(1)), Rec(Nth(0), 0), Rec(Nth(0), 0x80), Rec(Nth(1), 0), Comp(Nth(0)), Comp(Nth(1))],
            depth: if deep { 8 } else { 6 },
            probe: vec![Pub(1), Ack(Nth(0)), Rec(Nth(0), 0), Comp(Nth(0)), Ack(Nth(0)), Rec(Nth(0), 0), Comp(Nth(0)), Pub(2), Rec(Nth(0), 0), Comp(Nth(0)), Ack(Nth(0))],
            ..plain()
        },
    );
    chist(
        ctx,
        &CHist {
            name: "receive maximum changed by a restart",
            set: &|w| Setup { broker_max: [Some(1), Some(2), None][w.pick(3)], ..Default::default() },
            first: vec![Pub(1), Pub(2)],
            alphabet: vec![
                Pub(1), Pub(2), Ack(Nth(0)), Rec(Nth(0), 0), Comp(Nth(0)),
                Lose(Loss::Close, true, Some(1)), Lose(Loss::Close, true, None), Lose(Loss::Reset, false, Some(2)), Lose(Loss::Stop, true, Some(2)),
            ],
            depth: if deep { 6 } else { 5 },
            probe: vec![Ack(Nth(0)), Rec(Nth(0), 0), Comp(Nth(0)), Ack(Nth(0)), Rec(Nth(0), 0), Comp(Nth(0)), Pub(1), Ack(Nth(0))],
            ..plain()
        },
    );
    // many messages at once: the queue in front of the client is smaller than what it is given
    explore(ctx, "very many waiting", Cfg::NONE, &|w| {
        let max = [1u16, 3][w.pick(2)];
        let q = 1 + w.pick(2) as u8;
        let total = if deep { 65_000 } else { 5_000 };
        let mut s = CSys::new(w, Setup { broker_max: Some(max), ..Default::default() });
        let mut k = 0;
        while k < total {
            for _ in 0..100 {
                s.c.push_packet(app_publish(q, &format!("{k}"), None));
                k += 1;
            }
            w.run();
            if s.c.over().is_some() {
                w.fail("alive/ended", format!("{k} messages and receive maximum {max}: the client is {}", s.c.why()));
                return;
            }
        }
        let mut got = 0;
        while got < total {
            let v = s.c.wire();
            s.c.app();
            let n = v.iter().filter(|p| matches!(p, P::Publish { .. })).count();
            if n == 0 || n > max as usize {
                w.fail("quota/waiting", format!("{got} of {total} messages are acknowledged, receive maximum {max}: the client sends {}; {}", shows(&v), s.c.why()));
                return;
            }
            for p in &v {
                let b = s.c.peer.as_ref().unwrap();
                match p {
                    P::Publish { pid: Some(id), payload, .. } if *payload == format!("{got}").into_bytes() => {
                        got += 1;
                        b.send(&ack(if q == 1 { 4 } else { 5 }, *id));
                        if q == 2 {
                            b.send(&ack(7, *id));
                        }
                    }
                    P::Ack { kind: 6, .. } => {}
                    _ => {
                        w.fail("wire/order", format!("after {got} messages the client sends {}", show(p)));
                        return;
                    }
                }
            }
            w.run();
            w.run();
        }
        w.note(format!("receive maximum {max}, QoS {q}: {total} waiting"));
    });
    explore(ctx, "many waiting", Cfg::NONE, &|w| {
        let max = [1u16, 2, 7, 65_535][w.pick(4)];
        let q = 1 + w.pick(2) as u8;
        let acks = 1 + w.pick(3);
        let mut s = CSys::new(w, Setup { broker_max: Some(max), ..Default::default() });
        let (mut sent, mut got, mut open) = (0usize, 0usize, VecDeque::new());
        let total = if deep { 3_000 } else { 600 };
        while got < total && !w.dead {
            while sent < total && sent < got + 300 && s.c.push_packet(app_publish(q, &format!("{sent}"), None)) {
                sent += 1;
                if sent % 50 == 0 {
                    w.run();
                }
            }
            w.run();
            w.run();
            s.c.app();
            let v = s.c.wire();
            for p in &v {
                match p {
                    P::Publish { pid: Some(id), payload, dup: false, .. } if *payload == format!("{got}").into_bytes() => {
                        got += 1;
                        open.push_back(*id);
                    }
                    P::Ack { kind: 6, .. } => {}
                    _ => {
                        w.fail("wire/order", format!("after {got} messages the client sends {}", show(p)));
                        return;
                    }
                }
            }
            if open.len() > max as usize {
                w.fail("quota/exceeded", format!("{} messages unacknowledged, receive maximum {max}", open.len()));
                return;
            }
            if open.is_empty() || (open.len() < max as usize && got < sent) {
                w.fail("quota/unused", format!("{got} of {sent} messages are sent, {} unacknowledged, receive maximum {max}; client {}", open.len(), s.c.why()));
                return;
            }
            for _ in 0..acks.min(open.len()) {
                let id = open.pop_front().unwrap();
                let b = s.c.peer.as_ref().unwrap();
                b.send(&ack(if q == 1 { 4 } else { 5 }, id));
                if q == 2 {
                    b.send(&ack(7, id));
                }
            }
        }
        w.note(format!("receive maximum {max}, QoS {q}"));
    });
}

// ------------------------------------------------------------------ L08

pub fn l08(ctx: &Ctx) {
    ctx.rule("every history of incoming and outgoing messages and of the application's and the broker's acknowledgements to the stated depth; long runs with small maxima");
    let deep = ctx.thorough;
    chist(
        ctx,
        &CHist {
            name: "incoming",
            set: &|w| Setup { auto_ack: false, recv_max: [None, Some(2), Some(1)][w.pick(3)], ..Default::default() },
            alphabet: vec![
                In(1, 1, false), In(1, 1, true), In(2, 2, false), In(2, 2, true), In(0, 0, false),
                AppAck(4, 1, 0), AppAck(4, 1, 0x10), AppAck(5, 2, 0), AppAck(5, 2, 0x80), AppAck(7, 2, 0), Rel(2),
            ],
            depth: if deep { 8 } else { 6 },
            probe: vec![AppAck(4, 1, 0), AppAck(5, 2, 0), Rel(2), AppAck(7, 2, 0), In(1, 1, false), In(2, 2, false), AppAck(5, 2, 0), Rel(2), AppAck(7, 2, 0), AppAck(4, 1, 0)],
            ..plain()
        },
    );
    // a message refused by the application is finished too
    chist(
        ctx,
        &CHist {
            name: "refused",
            set: &|w| Setup { auto_ack: false, recv_max: [Some(1), Some(2)][w.pick(2)], ..Default::default() },
            alphabet: vec![
                In(1, 1, false), In(1, 2, false), In(2, 3, false), In(2, 4, false), AppAck(4, 1, 0x80), AppAck(4, 2, 0x97), AppAck(5, 3, 0), AppAck(5, 3, 0x80),
                AppAck(5, 4, 0x83), Rel(3), AppAck(7, 3, 0), AppAck(7, 3, 0x92),
            ],
            depth: if deep { 7 } else { 6 },
            probe: vec![AppAck(4, 1, 0x80), AppAck(4, 2, 0x80), AppAck(5, 3, 0x80), AppAck(5, 4, 0x80), Rel(3), AppAck(7, 3, 0x92), In(1, 5, false), In(2, 6, false), AppAck(4, 5, 0x87), In(1, 7, false)],
            ..plain()
        },
    );
    chist(
        ctx,
        &CHist {
            name: "outgoing",
            set: &|w| Setup { auto_ack: false, broker_max: [Some(1), Some(2), None][w.pick(3)], ..Default::default() },
            alphabet: vec![
                Pub(1), Pub(2), Ack(Nth(0)), Ack(Nth(1)), Rec(Nth(0), 0), Rec(Nth(1), 0), Rec(Nth(0), 0x80),
                AppRel(Nth(0)), AppRel(Nth(1)), Comp(Nth(0)), Comp(Nth(1)), Ack(Done), Comp(Done), In(1, 1, false), AppAck(4, 1, 0),
            ],
            depth: if deep { 7 } else { 5 },
            probe: vec![Again(true), Rec(Nth(0), 0), AppRel(Nth(0)), Comp(Nth(0)), Ack(Nth(0)), Pub(2), Rec(Nth(0), 0), AppRel(Nth(0)), Comp(Nth(0)), Pub(1), Ack(Nth(0))],
            ..plain()
        },
    );
    chist(
        ctx,
        &CHist {
            name: "manual and losses",
            set: &|_| Setup { auto_ack: false, ..Default::default() },
            alphabet: vec![
                Pub(2), Rec(Nth(0), 0), AppRel(Nth(0)), Comp(Nth(0)), In(2, 1, false), In(2, 1, true), AppAck(5, 1, 0), Rel(1), AppAck(7, 1, 0),
                Lose(Loss::Close, true, None), Lose(Loss::Close, false, None),
            ],
            depth: if deep { 7 } else { 5 },
            probe: vec![Rec(Nth(0), 0), AppRel(Nth(0)), Comp(Nth(0))],
            ..plain()
        },
    );
    // the application acknowledges one message while others wait for room in its queue
    explore(ctx, "acknowledging behind a full queue", Cfg::NONE, &|w| {
        let (size, more, q) = (1 + w.pick(2) as u16, w.pick(4), 1 + w.pick(2) as u8);
        let how: How = Arc::new(move |b| b.with_channel_size(size));
        let mut s = CSys::new(w, Setup { auto_ack: false, how, ..Default::default() });
        let n = size as usize + more;
        for i in 1..=n {
            s.c.peer.as_ref().unwrap().send(&publish("t", q, i as u16, b"x"));
        }
        let (mut taken, mut open, mut done) = (0u16, VecDeque::new(), 0);
        while done < n && !w.dead {
            settle(w);
            let early = w.pick(2) == 0;
            // takes one, acknowledges it now or after the next
            match s.c.cons.as_mut().unwrap().try_recv() {
                Ok(p) => {
                    taken += 1;
                    let p = seen(&p);
                    if !matches!(p, P::Publish { pid: Some(i), .. } if i == taken) {
                        w.fail("app/order", format!("message {taken} is due, the application gets {}", show(&p)));
                        return;
                    }
                    open.push_back(taken);
                }
                Err(_) if (taken as usize) < n => {
                    w.fail("app/missing", format!("message {} of {n} is not handed over; client {}", taken + 1, s.c.why()));
                    return;
                }
                Err(_) => {}
            }
            if !early && (taken as usize) < n {
                continue;
            }
            while let Some(id) = open.pop_front() {
                let mut want = vec![];
                for k in if q == 1 { vec![4] } else { vec![5] } {
                    let a = ack(k, id);
                    s.c.push(&a);
                    want.push(a);
                }
                settle(w);
                let got = s.c.wire();
                if canon(&got) != canon(&want) {
                    w.fail("wire/AppAck", format!("the application acknowledges {id} while {} wait: the client must send {} but sends {}; {}", n - taken as usize, shows(&want), shows(&got), s.c.why()));
                    return;
                }
                done += 1;
            }
        }
        w.note(format!("queue {size}, {n} messages of QoS {q}"));
    });
    // with automatic acknowledgement the application's own are ignored
    explore(ctx, "ignored acknowledgements", Cfg::NONE, &|w| {
        let mut s = CSys::new(w, Setup::default());
        let k = 4 + w.pick(4) as u8;
        let (id, r) = ([1u16, 2, 9][w.pick(3)], [0u8, 0x80][w.pick(2)]);
        let before: Vec<COp> = [vec![], vec![In(2, 1, false)], vec![Pub(2)], vec![Pub(2), Rec(Nth(0), 0)], vec![Pub(1), Pub(2)], vec![In(2, 1, false), Rel(1)]][w.pick(6)].clone();
        for o in &before {
            s.step(w, o);
        }
        if w.dead || (k > 5 && r != 0) {
            return;
        }
        s.c.push(&P::Ack { kind: k, pid: id, reason: r, props: vec![] });
        s.step(w, &AppPing);
        for o in [In(2, 1, true), Rel(1), Rec(Nth(0), 0), Comp(Nth(0)), Ack(Nth(0)), Pub(1)] {
            if !w.dead && s.enabled(&o) {
                s.step(w, &o);
            }
        }
    });
    explore(ctx, "many rounds", Cfg::NONE, &|w| {
        let (q, rounds) = (1 + w.pick(2) as u8, if deep { 2_000 } else { 200 });
        let auto = w.pick(2) == 0;
        let mut s = CSys::new(w, Setup { auto_ack: auto, recv_max: Some(2), broker_max: Some(2), ..Default::default() });
        for r in 0..rounds {
            let id = 1 + r % 3;
            let round = match q {
                1 => vec![In(1, id, false), AppAck(4, id, 0), Pub(1), Ack(Nth(0))],
                _ => vec![In(2, id, false), AppAck(5, id, 0), Rel(id), AppAck(7, id, 0), Pub(2), Rec(Nth(0), 0), AppRel(Nth(0)), Comp(Nth(0))],
            };
            for o in &round {
                if w.dead {
                    return;
                }
                if s.enabled(o) {
                    s.step(w, o);
                }
            }
            w.obs.clear();
        }
        w.note(format!("{rounds} rounds of QoS {q}"));
    });
}

// ------------------------------------------------------------------ L09

pub fn l09(ctx: &Ctx) {
    ctx.rule("every history of messages, acknowledgements and losses with restarts to the stated depth; the connection failing after every byte the client writes");
    let deep = ctx.thorough;
    let losses = |v: &mut Vec<COp>| {
        v.extend([Lose(Loss::Close, true, None), Lose(Loss::Reset, true, Some(1)), Lose(Loss::ServerDisconnect, true, None), Lose(Loss::Stop, true, None), Lose(Loss::Close, false, None)])
    };
    let mut a = vec![Pub(0), Pub(1), Pub(2), Ack(Nth(0)), Ack(Nth(1)), Rec(Nth(0), 0), Rec(Nth(1), 0), Comp(Nth(0)), Comp(Nth(1))];
    losses(&mut a);
    chist(
        ctx,
        &CHist {
            name: "losses",
            alphabet: a,
            depth: if deep { 6 } else { 5 },
            probe: vec![Lose(Loss::Close, true, None), Rec(Nth(0), 0), Rec(Nth(1), 0), Comp(Nth(0)), Ack(Nth(0)), Comp(Nth(0)), Pub(1), Lose(Loss::Close, true, None), Lose(Loss::Close, false, None), Pub(2)],
            ..plain()
        },
    );
    let mut a = vec![Pub(1), Pub(2), Ack(Nth(2)), Rec(Nth(3), 0), Rec(Nth(1), 0), Comp(Nth(1))];
    losses(&mut a);
    chist(
        ctx,
        &CHist {
            name: "order of retransmission",
            // identifiers that do not follow the order of sending
            first: vec![PubId(1, 900), PubId(2, 7), Pub(1), PubId(2, 65_535), Pub(2), PubId(1, 3)],
            alphabet: a,
            depth: if deep { 5 } else { 4 },
            ..plain()
        },
    );
    // messages with identifiers of the application's choice, sent and waiting, with and without the session
    chist(
        ctx,
        &CHist {
            name: "own identifiers",
            set: &|w| Setup { auto_id: w.pick(2) == 0, broker_max: [Some(1), Some(2), None][w.pick(3)], ..Default::default() },
            alphabet: vec![
                PubId(1, 900), PubId(2, 7), Pub(1), Ack(Nth(0)), Rec(Nth(0), 0), Comp(Nth(0)),
                Lose(Loss::Close, true, Some(1)), Lose(Loss::Close, false, Some(1)), Lose(Loss::Reset, true, None), Lose(Loss::Stop, false, None),
            ],
            depth: if deep { 6 } else { 5 },
            probe: vec![Ack(Nth(0)), Rec(Nth(0), 0), Comp(Nth(0)), Ack(Nth(0)), Rec(Nth(0), 0), Comp(Nth(0)), Pub(2), Rec(Nth(0), 0), Comp(Nth(0))],
            ..plain()
        },
    );
    // a message that has no encoding must not be kept: no later connection could send it either
    explore(ctx, "messages that cannot be sent", Cfg::NONE, &|w| {
        let before: &[u8] = [&[][..], &[1], &[2], &[2, 1], &[1, 1]][w.pick(5)];
        let (qos, how) = (w.pick(3) as u8, w.pick(4));
        let quota = [None, Some(1u16), Some(2)][w.pick(3)];
        let own = w.pick(2) == 1;
        let present = w.pick(2) == 0;
        let bad = || {
            let Packet::Publish(mut x) = app_publish(qos, "bad", (own && qos > 0).then_some(77)) else { unreachable!() };
            let long = "x".repeat(65_536);
            match how {
                0 => x.topic_name = long,
                1 => x.content_type = Some(long),
                2 => x.correlation_data = long.into_bytes(),
                _ => x.response_topic = Some(long),
            }
            Packet::Publish(x)
        };
        let what = format!("{before:?} and then a message ({how}) of QoS {qos} that has no encoding, receive maximum {quota:?}");
        let props = || quota.map(|q| pr(0x21, PV::U16(q))).into_iter().collect::<Vec<_>>();
        let mut c = Cli::new();
        let begin = |w: &mut World, c: &mut Cli, state: Option<SessionState>, sp: bool| -> Vec<P> {
            c.launch(w, Arc::new(|b: ClientBuilder| b.with_client_id("cli")), state, false, None);
            settle(w);
            if w.dead || !c.accept() {
                w.fail("start/connect", "the client does not connect");
                return vec![];
            }
            c.wire();
            c.peer.as_ref().unwrap().send(&connack(sp, props()));
            settle(w);
            c.wire()
        };
        begin(w, &mut c, None, false);
        let mut sent: Vec<String> = vec![];
        for (k, q) in before.iter().enumerate() {
            c.push_packet(app_publish(*q, &format!("m{k}"), None));
            sent.push(format!("m{k}"));
        }
        settle(w);
        c.push_packet(bad());
        settle(w);
        let mut v = c.wire();
        // what waits for room is reached by acknowledging
        for _ in 0..before.len() {
            if c.over().is_some() {
                break;
            }
            let Some(P::Publish { pid: Some(id), qos, payload, .. }) = v.iter().find(|p| matches!(p, P::Publish { payload, pid: Some(_), .. } if sent.contains(&String::from_utf8_lossy(payload).to_string()))).cloned() else { break };
            sent.retain(|x| x.as_bytes() != payload);
            let b = c.peer.as_ref().unwrap();
            if qos == 1 {
                b.send(&ack(4, id))
            } else {
                b.send(&ack(5, id));
                settle(w);
                c.peer.as_ref().unwrap().send(&ack(7, id));
            }
            settle(w);
            v.extend(c.wire());
        }
        if let Some(m) = mcbase::take_panic() {
            w.fail("panic/panic", format!("{what}: {m}"));
            return;
        }
        if v.iter().any(|p| matches!(p, P::Publish { payload, .. } if payload == b"bad")) {
            w.fail("unsendable/sent", format!("{what}: sends {}", shows(&v)));
            return;
        }
        if c.over().is_none() {
            // waiting still, or dropped: then it goes on
            c.peer.as_mut().unwrap().close();
            settle(w);
        }
        if c.over() != Some(false) {
            w.fail("unsendable/outcome", format!("{what}: the client is {}", c.why()));
            return;
        }
        let Some(st) = c.take_state() else {
            w.fail("unsendable/state", format!("{what}: no session state is handed back"));
            return;
        };
        let v = begin(w, &mut c, Some(st), present);
        if w.dead {
            return;
        }
        w.note(format!("{what}: after the restart {} {}", shows(&v), c.why()));
        if c.over().is_some() {
            w.fail("unsendable/kept", format!("{what}: the session cannot be resumed any more: {}", c.why()));
            return;
        }
        let got: Vec<String> = v.iter().filter_map(|p| if let P::Publish { payload, .. } = p { Some(String::from_utf8_lossy(payload).to_string()) } else { None }).collect();
        let want: Vec<String> = if present { sent.iter().take(quota.unwrap_or(9) as usize).cloned().collect() } else { vec![] };
        if got != want && present {
            w.fail("resume/messages", format!("{what}: sent again {got:?} instead of {want:?}"));
        }
    });
    // long outages: very many unfinished messages keep their order
    explore(ctx, "thousands unfinished", Cfg::NONE, &|w| {
        let n = if deep { [300usize, 1_100, 5_000, 40_000, 65_535][w.pick(5)] } else { [300usize, 1_100, 5_000][w.pick(3)] };
        let mix = w.pick(3);
        let rec = w.pick(2) == 1;
        let quota = [None, Some(7u16)][w.pick(2)];
        let what = format!("{n} messages, kind {mix}, receive maximum {quota:?}, PUBREC for every seventh: {rec}");
        let mut c = Cli::new();
        let begin = |w: &mut World, c: &mut Cli, state: Option<SessionState>, sp: bool| -> bool {
            c.launch(w, Arc::new(|b: ClientBuilder| b.with_client_id("cli").with_auto_packet_id(true)), state, false, None);
            settle(w);
            if w.dead || !c.accept() {
                w.fail("start/connect", "the client does not connect");
                return false;
            }
            c.wire();
            c.peer.as_ref().unwrap().send(&connack(sp, quota.map(|q| pr(0x21, PV::U16(q))).into_iter().collect()));
            settle(w);
            true
        };
        if !begin(w, &mut c, None, false) {
            return;
        }
        // (payload, identifier if sent, answered)
        let mut sent: Vec<(String, Option<u16>, bool)> = vec![];
        let mut k = 0;
        while k < n {
            let b = 50.min(n - k);
            for i in k..k + b {
                c.push_packet(app_publish(if mix == 2 { 1 + (i % 2) as u8 } else { 1 + mix as u8 }, &format!("{i}"), None));
                sent.push((format!("{i}"), None, false));
            }
            w.run();
            w.run();
            for p in c.wire() {
                let P::Publish { pid: Some(id), payload, qos, .. } = p else { continue };
                let j: usize = String::from_utf8_lossy(&payload).parse().unwrap_or(0);
                sent[j].1 = Some(id);
                if rec && qos == 2 && j % 7 == 3 {
                    sent[j].2 = true;
                    c.peer.as_ref().unwrap().send(&ack(5, id));
                    w.run();
                    c.app();
                }
            }
            k += b;
        }
        settle(w);
        c.app();
        c.wire();
        c.peer.as_mut().unwrap().close();
        settle(w);
        let Some(st) = c.take_state() else {
            w.fail("resume/state", format!("{what}: no session state is handed back: {}", c.why()));
            return;
        };
        if !begin(w, &mut c, Some(st), true) {
            return;
        }
        let v = c.wire();
        // sent again in order, PUBRELs apart, as many as the quota lets through
        let got: Vec<(usize, u16, bool)> = v.iter().filter_map(|p| if let P::Publish { pid: Some(id), payload, dup, .. } = p { Some((String::from_utf8_lossy(payload).parse().unwrap_or(usize::MAX), *id, *dup)) } else { None }).collect();
        let rels = v.iter().filter(|p| matches!(p, P::Ack { kind: 6, .. })).count();
        let want: Vec<usize> = (0..n).filter(|j| !sent[*j].2).collect();
        let room = quota.map_or(want.len(), |q| (q as usize).saturating_sub(rels));
        if rels != sent.iter().filter(|x| x.2).count() {
            w.fail("resume/pubrel", format!("{what}: {rels} PUBRELs are sent again"));
            return;
        }
        for (i, j) in want.iter().take(room).enumerate() {
            match got.get(i) {
                Some((g, id, dup)) if g == j && sent[*j].1.is_none_or(|x| x == *id && *dup) => {}
                x => {
                    w.fail("resume/order", format!("{what}: message {i} to be sent again is {x:?} (number, identifier, duplicate) instead of {j} with {:?}", sent[*j].1));
                    return;
                }
            }
        }
        if got.len() != want.len().min(room) {
            w.fail("resume/extra", format!("{what}: {} messages are sent again instead of {}", got.len(), want.len().min(room)));
        }
    });
    // the connection fails after every byte
    explore(ctx, "failing after every byte", Cfg::NONE, &|w| {
        let first: Vec<COp> = [vec![], vec![Pub(1)], vec![Pub(2)], vec![Pub(2), Pub(1)], vec![Pub(2), Rec(Nth(0), 0)], vec![In(2, 1, false)], vec![Pub(2), Pub(2), Rec(Nth(1), 0)]][w.pick(7)].clone();
        let last = [Pub(0), Pub(1), Pub(2), Rec(Nth(0), 0), In(1, 5, false), In(2, 5, false), Rel(1)][w.pick(7)].clone();
        let sp = w.pick(2) == 0;
        let n = w.pick(12);
        let mut s = w.quiet(|w| {
            let mut s = CSys::new(w, Setup::default());
            for o in &first {
                s.step(w, o);
            }
            s
        });
        if w.dead || !s.enabled(&last) {
            return;
        }
        s.cut(w, &last, n, sp);
        for o in [Rec(Nth(0), 0), Comp(Nth(0)), Ack(Nth(0)), In(2, 5, true), Rel(5), In(2, 6, false), Pub(2)] {
            if !w.dead && s.enabled(&o) {
                s.step(w, &o);
            }
        }
    });
}
impl CSys {
    /// One operation while the network takes only `n` more bytes from the client; then a restart.
    fn cut(&mut self, w: &mut World, o: &COp, n: usize, sp: bool) {
        match o {
            Rec(Nth(0), 0) if self.out[0].qos != 2 || self.out[0].st != St::Sent => return,
            Rel(id) if !self.inc.iter().any(|x| x.0 == *id) => return,
            _ => {}
        }
        self.c.peer.as_ref().unwrap().break_writes(n);
        let what = format!("m{}", self.n);
        self.n += 1;
        // what the client would write, and what it must remember after failing to
        let b = self.c.peer.as_ref().unwrap();
        let mut write = 0;
        let mut handed: Option<P> = None;
        match o {
            Pub(q) => {
                self.c.push_packet(app_publish(*q, &what, None));
                write = 2 + 3 + 1 + what.len() + if *q > 0 { 2 } else { 0 };
                if *q > 0 {
                    self.seq += 1;
                    self.out.push(Ex { id: 0, qos: *q, st: St::Sent, what: what.clone(), seq: self.seq });
                }
            }
            Rec(Nth(0), 0) => {
                let id = self.out[0].id;
                b.send(&ack(5, id));
                handed = Some(ack(5, id));
                write = 4;
                self.seq += 1;
                self.out[0].st = St::Released;
                self.out[0].seq = self.seq;
            }
            In(q, id, _) => {
                let p = P::Publish { dup: false, qos: *q, retain: false, topic: "t".into(), pid: Some(*id), props: vec![], payload: what.clone().into_bytes() };
                b.send(&p);
                handed = Some(p);
                write = 4;
                if *q == 2 && n >= 4 {
                    self.inc.push((*id, 2, true));
                }
            }
            Rel(id) => {
                b.send(&ack(6, *id));
                handed = Some(ack(6, *id));
                write = 4;
                let k = self.inc.iter().position(|x| x.0 == *id);
                if let Some(k) = k {
                    if n >= 4 {
                        self.inc.remove(k);
                    }
                } else {
                    return;
                }
            }
            _ => return,
        }
        settle(w);
        let app = self.c.app();
        let got = self.c.wire();
        if n >= write {
            // got through: learn the identifier; the failure shows with the next packet
            if let (Pub(1..), Some(P::Publish { pid: Some(x), .. })) = (o, got.first()) {
                self.out.last_mut().unwrap().id = *x;
            }
            if let Some(h) = &handed {
                if app != [h.clone()] {
                    w.fail("app/cut", format!("{o:?}, network taking {n} bytes: the application must be given {} but gets {}", show(h), shows(&app)));
                    return;
                }
            }
            for _ in 0..8 {
                self.c.push(&P::PingReq);
            }
            settle(w);
            self.c.wire();
        } else if let Some(h) = &handed {
            // the broker has not seen the answer and sends again: handing over both times is no longer
            // exactly once
            if matches!(o, In(2, ..)) && !app.is_empty() {
                self.inc.push(match o {
                    In(q, id, _) => (*id, *q, true),
                    _ => unreachable!(),
                });
            }
            if !app.is_empty() && app != [h.clone()] {
                w.fail("app/cut", format!("{o:?}: the application gets {}", shows(&app)));
                return;
            }
        }
        // an identifier the wire never showed whole: the retransmission tells
        w.note(format!("{o:?} with {n} bytes: {} / {}, {}", shows(&got), shows(&app), self.c.why()));
        self.after_loss(w, &format!("{o:?}, network failing after {n} bytes"), sp, None);
    }
}
