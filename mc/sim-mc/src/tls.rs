//! TLS: certificates of every kind, and the client's refusals.
use crate::client::*;
use crate::explore::*;
use crate::net::*;
use crate::sched::settle;
use mcbase::Ctx;
use rcgen::*;
use rustls::pki_types::{CertificateDer, PrivateKeyDer};
use std::sync::{Arc, OnceLock};
use tokio::sim::net::{TcpListener, dialled, shape};
use tokio_rustls::TlsAcceptor;
use vaux_client::MqttConnection;

pub struct Pki {
    pub right: Arc<rustls::RootCertStore>,
    pub wrong: Arc<rustls::RootCertStore>,
    pub empty: Arc<rustls::RootCertStore>,
    pub both: Arc<rustls::RootCertStore>,
    /// (name, chain good for `right`, covers 127.0.0.1, covers 127.0.0.2, acceptor)
    pub servers: Vec<Server>,
}
pub struct Server {
    pub name: &'static str,
    /// chains to the right store
    pub good: bool,
    /// chains to the wrong store
    pub good_wrong: bool,
    pub covers: [bool; 2],
    pub acceptor: TlsAcceptor,
}
pub fn pki() -> &'static Pki {
    static P: OnceLock<Pki> = OnceLock::new();
    P.get_or_init(|| with_rand(1, make))
}
fn ca(name: &str) -> CertifiedIssuer<'static, KeyPair> {
    let mut p = CertificateParams::new(Vec::<String>::new()).unwrap();
    p.is_ca = IsCa::Ca(BasicConstraints::Unconstrained);
    p.distinguished_name.push(DnType::CommonName, name);
    CertifiedIssuer::self_signed(p, KeyPair::generate().unwrap()).unwrap()
}
fn der(c: &Certificate) -> CertificateDer<'static> {
    CertificateDer::from(c.der().to_vec())
}
fn leaf(sans: &[SanType]) -> CertificateParams {
    let mut p = CertificateParams::new(Vec::<String>::new()).unwrap();
    p.subject_alt_names = sans.to_vec();
    p.distinguished_name.push(DnType::CommonName, "127.0.0.1");
    p
}
fn ip(last: u8) -> SanType {
    SanType::IpAddress([127, 0, 0, last].into())
}
fn dns(n: &str) -> SanType {
    SanType::DnsName(n.try_into().unwrap())
}
fn acceptor(chain: Vec<CertificateDer<'static>>, key: &KeyPair) -> TlsAcceptor {
    let key = PrivateKeyDer::try_from(key.serialize_der()).unwrap();
    let c = rustls::ServerConfig::builder().with_no_client_auth().with_single_cert(chain, key).expect("server config");
    TlsAcceptor::from(Arc::new(c))
}
fn make() -> Pki {
    let a = ca("right");
    let b = ca("wrong");
    let store = |v: &[&Certificate]| {
        let mut s = rustls::RootCertStore::empty();
        for c in v {
            s.add(der(c)).unwrap();
        }
        Arc::new(s)
    };
    let mut servers = vec![];
    let mut add = |name, good, good_wrong, covers, chain: Vec<CertificateDer<'static>>, key: &KeyPair| {
        servers.push(Server { name, good, good_wrong, covers, acceptor: acceptor(chain, key) })
    };
    let k = KeyPair::generate().unwrap();
    // the one that is right first
    let c = leaf(&[ip(1), dns("localhost")]).signed_by(&k, &a).unwrap();
    add("right CA and name", true, false, [true, false], vec![der(&c), der(a.as_ref())], &k);
    add("right CA and name, bare chain", true, false, [true, false], vec![der(&c)], &k);
    let c = leaf(&[ip(1)]).signed_by(&k, &b).unwrap();
    add("other CA", false, true, [true, false], vec![der(&c), der(b.as_ref())], &k);
    add("other CA, the right CA's certificate appended", false, true, [true, false], vec![der(&c), der(a.as_ref())], &k);
    let c = leaf(&[ip(2)]).signed_by(&k, &a).unwrap();
    add("right CA, other name", true, false, [false, true], vec![der(&c)], &k);
    let c = leaf(&[dns("localhost"), dns("127.0.0.1.example"), ip(3)]).signed_by(&k, &a).unwrap();
    add("right CA, host name only in CN", true, false, [false, false], vec![der(&c)], &k);
    let c = leaf(&[]).signed_by(&k, &a).unwrap();
    add("right CA, no alternative names", true, false, [false, false], vec![der(&c)], &k);
    let c = leaf(&[ip(1), ip(2)]).signed_by(&k, &a).unwrap();
    add("right CA, two names", true, false, [true, true], vec![der(&c)], &k);
    let mut p = leaf(&[ip(1)]);
    (p.not_before, p.not_after) = (date_time_ymd(2001, 1, 1), date_time_ymd(2002, 1, 1));
    let c = p.signed_by(&k, &a).unwrap();
    add("expired", false, false, [true, false], vec![der(&c)], &k);
    let mut p = leaf(&[ip(1)]);
    (p.not_before, p.not_after) = (date_time_ymd(2900, 1, 1), date_time_ymd(2901, 1, 1));
    let c = p.signed_by(&k, &a).unwrap();
    add("not yet valid", false, false, [true, false], vec![der(&c)], &k);
    let mut p = leaf(&[ip(1)]);
    p.extended_key_usages = vec![ExtendedKeyUsagePurpose::ClientAuth];
    let c = p.signed_by(&k, &a).unwrap();
    add("for clients only", false, false, [true, false], vec![der(&c)], &k);
    let c = leaf(&[ip(1)]).self_signed(&k).unwrap();
    add("self-signed", false, false, [true, false], vec![der(&c)], &k);
    // a CA with the right one's name and another key
    let f = ca("right");
    let c = leaf(&[ip(1)]).signed_by(&k, &f).unwrap();
    add("CA of the same name, other key", false, false, [true, false], vec![der(&c), der(f.as_ref())], &k);
    // an intermediate
    let mut p = CertificateParams::new(Vec::<String>::new()).unwrap();
    p.is_ca = IsCa::Ca(BasicConstraints::Unconstrained);
    p.distinguished_name.push(DnType::CommonName, "middle");
    let m = CertifiedIssuer::signed_by(p, KeyPair::generate().unwrap(), &a).unwrap();
    let c = leaf(&[ip(1)]).signed_by(&k, &m).unwrap();
    add("by way of an intermediate", true, false, [true, false], vec![der(&c), der(m.as_ref())], &k);
    add("intermediate not sent", false, false, [true, false], vec![der(&c)], &k);
    // signed by a certificate that is no CA
    let mut p = leaf(&[ip(1)]);
    p.is_ca = IsCa::ExplicitNoCa;
    let n = CertifiedIssuer::signed_by(p, KeyPair::generate().unwrap(), &a).unwrap();
    let c = leaf(&[ip(1)]).signed_by(&k, &n).unwrap();
    add("by way of a certificate that is no CA", false, false, [true, false], vec![der(&c), der(n.as_ref())], &k);
    Pki { right: store(&[a.as_ref()]), wrong: store(&[b.as_ref()]), empty: store(&[]), both: store(&[b.as_ref(), a.as_ref()]), servers }
}
pub fn tls_config(a: &TlsAcceptor) -> vaux_broker::Config {
    vaux_broker::Config { tls_acceptor: Some(a.clone()), ..config() }
}
const SECRET: &str = "pass-wort-9";
const WAIT: u64 = 5_000;
fn how() -> How {
    Arc::new(|b| b.with_client_id("cli-name"))
}
fn conn(order: usize, host: &str, trust: Option<Arc<rustls::RootCertStore>>) -> MqttConnection {
    let c = MqttConnection::new();
    let t = |c: MqttConnection| match trust {
        Some(t) => c.with_trust_store(t),
        None => c,
    };
    match order {
        0 => t(c.with_tls().with_host(host).with_port(PORT)).with_credentials("user", SECRET),
        1 => t(c.with_host(host).with_port(PORT).with_credentials("user", SECRET)).with_tls(),
        _ => t(c).with_tls().with_port(PORT).with_credentials("user", SECRET).with_host(host),
    }
}
fn client() -> Cli {
    Cli { lis: TcpListener::listen(2000).unwrap(), peer: None, prod: None, cons: None, sh: Default::default() }
}
/// Nothing but TLS records has left the client, and none of its secrets.
fn secrecy(w: &mut World) {
    for d in dialled(PORT) {
        let up = d.up.lock().unwrap().log.clone().unwrap_or_default();
        if up.is_empty() {
            continue;
        }
        if up[0] != 0x16 || up.get(1).is_some_and(|b| *b != 3) {
            w.fail("plain/first", format!("a client with TLS begins with {}", mcbase::hexclip(&up)));
            return;
        }
        for s in ["cli-name", SECRET, "MQTT"] {
            if up.windows(s.len()).any(|x| x == s.as_bytes()) {
                w.fail("plain/secret", format!("\"{s}\" leaves the client unencrypted"));
                return;
            }
        }
    }
}
/// The client must have been refused, by now.
fn refused(w: &mut World, c: &mut Cli, why: &str) {
    secrecy(w);
    if c.connected() == Some(true) {
        w.fail("trust/connected", format!("the client connects although {why}"));
    } else if c.over() != Some(false) {
        w.fail("trust/waits", format!("the client neither connects nor fails although {why}: {}", c.why()));
    }
    let v = c.app();
    if !v.is_empty() {
        w.fail("trust/app", format!("although {why} the application gets {}", shows(&v)));
    }
    panics(w);
}
fn panics(w: &mut World) {
    if let Some(m) = mcbase::take_panic() {
        w.fail("panic/panic", m);
    }
}

#[derive(Clone, Copy, Debug)]
enum Srv {
    /// a broker without TLS
    Plain,
    /// sends CONNACK at once, unencrypted
    Eager,
    Silent,
    Closes,
    Garbage,
    /// answers every byte with a TLS alert
    Alert,
    Refuses,
}
pub fn e02(ctx: &Ctx) {
    ctx.rule("every combination of trust store, requested host and server certificate, with the real broker's TLS as server, each in every order of configuration and with network pieces; servers that do not speak TLS; the server's handshake cut or stalled at every byte; repeated starts");
    let p = pki();
    let t = ctx.thorough;
    explore(ctx, "trust, host and certificate", Cfg::NONE, &|w| {
        let srv = &p.servers[w.pick(p.servers.len())];
        let trust = w.pick(5);
        let host = w.pick(2);
        let order = w.pick(3);
        let piece = [usize::MAX, 1, 7, 100][w.pick(if t { 4 } else { 2 })];
        let tried = w.pick(2) == 1;
        w.note(format!("{}; trust {trust}, host {host}, order {order}, pieces {piece}, try_start {tried}", srv.name));
        tokio::sim::net::log();
        shape(usize::MAX, piece, piece);
        Net::start(w, tls_config(&srv.acceptor));
        let store = match trust {
            0 => Some(p.right.clone()),
            1 => Some(p.wrong.clone()),
            2 => Some(p.empty.clone()),
            3 => None,
            _ => Some(p.both.clone()),
        };
        let good = match trust {
            0 => srv.good,
            1 => srv.good_wrong,
            4 => srv.good || srv.good_wrong,
            _ => false,
        } && srv.covers[host];
        let mut c = client();
        c.launch_with(w, conn(order, ["127.0.0.1", "127.0.0.2"][host], store), how(), None, true, tried.then_some(WAIT));
        w.advance(500);
        settle(w);
        if good {
            secrecy(w);
            if c.connected() != Some(true) {
                w.fail("trust/refused", format!("the client does not connect to a server it trusts: {}", c.why()));
            }
            panics(w);
        } else {
            refused(w, &mut c, "trust, host and certificate do not fit");
        }
    });
    explore(ctx, "servers without TLS", Cfg::NONE, &|w| {
        let s = [Srv::Plain, Srv::Eager, Srv::Silent, Srv::Closes, Srv::Garbage, Srv::Alert, Srv::Refuses][w.pick(7)];
        let order = w.pick(3);
        let store = [Some(p.right.clone()), Some(p.empty.clone()), None][w.pick(3)].clone();
        let tried = w.pick(2) == 1;
        w.note(format!("{s:?}, order {order}, trust {}, try_start {tried}", store.is_some()));
        tokio::sim::net::log();
        let lis = match s {
            Srv::Plain => {
                Net::start(w, config());
                None
            }
            Srv::Refuses => None,
            _ => Some(TcpListener::listen(PORT).unwrap()),
        };
        let mut c = client();
        c.launch_with(w, conn(order, "127.0.0.1", store), how(), None, true, tried.then_some(WAIT));
        settle(w);
        let mut peer = lis.as_ref().and_then(|l| l.try_accept()).map(|s| Peer::from(s, "server"));
        if let Some(p) = &mut peer {
            match s {
                Srv::Eager => p.send(&connack(false, vec![])),
                Srv::Closes => p.close(),
                Srv::Garbage => p.send_raw(&[0x20, 0x03, 0, 0, 0, 0x55, 0xaa, 0xff].repeat(40)),
                Srv::Alert => p.send_raw(&[0x15, 3, 3, 0, 2, 2, 40]),
                _ => {}
            }
        }
        settle(w);
        w.advance(WAIT + 1_000);
        settle(w);
        refused(w, &mut c, "the server does not speak TLS");
    });
    // the number of bytes of the server's part of the handshake is about 900
    explore(ctx, "handshake cut or stalled", Cfg::NONE, &|w| {
        let step = if t { 1 } else { 5 };
        let at = w.pick(1200 / step) * step;
        let stall = w.pick(2) == 1;
        let up = w.pick(2) == 1;
        w.note(format!("{} at byte {at} of the {}", if stall { "stalled" } else { "cut" }, if up { "client" } else { "server" }));
        tokio::sim::net::log();
        Net::start(w, tls_config(&p.servers[0].acceptor));
        // in between, so that the cut can be made
        let front = TcpListener::listen(1999).unwrap();
        let mut c = client();
        let cn = conn(0, "127.0.0.1", Some(p.right.clone())).with_port(1999);
        c.launch_with(w, cn, how(), None, true, None);
        settle(w);
        let Some(a) = front.try_accept() else {
            w.fail("trust/connect", "the client does not connect");
            return;
        };
        let mut a = Peer::from(a, "client");
        let mut b = Peer::from(tokio::sim::net::TcpStream::dial(PORT).unwrap(), "server");
        let mut left = at;
        let mut over = false;
        for _ in 0..12 {
            let x = a.take_raw();
            let y = b.take_raw();
            let n = if up { x.len() } else { y.len() };
            let k = n.min(left);
            if !over {
                b.send_raw(&x[..if up { k } else { x.len() }]);
                a.send_raw(&y[..if up { y.len() } else { k }]);
            }
            left -= k;
            if k < n && !over {
                over = true;
                if !stall {
                    a.close();
                    b.close();
                }
            }
            settle(w);
        }
        secrecy(w);
        if over {
            w.advance(2 * WAIT + 1_000);
            settle(w);
            // the last bytes of the server are not part of the handshake
            if c.connected() != Some(true) {
                refused(w, &mut c, "the handshake is not completed");
            }
        } else if c.connected() != Some(true) {
            w.fail("trust/refused", format!("the client does not connect: {}", c.why()));
        }
        secrecy(w);
        panics(w);
    });
    explore(ctx, "repeated starts", Cfg::NONE, &|w| {
        // what answers the first start, what the second one
        let kinds = 4;
        let (x, y) = (w.pick(kinds), w.pick(kinds));
        w.note(format!("first {x}, then {y}"));
        tokio::sim::net::log();
        let serve = |w: &mut World, k: usize| -> Option<TcpListener> {
            match k {
                0 => {
                    Net::start(w, vaux_broker::Config { listen_addr: ([127, 0, 0, 1], PORT).into(), ..tls_config(&p.servers[0].acceptor) });
                    None
                }
                1 => {
                    Net::start(w, tls_config(&p.servers[2].acceptor));
                    None
                }
                2 => {
                    Net::start(w, config());
                    None
                }
                _ => Some(TcpListener::listen(PORT).unwrap()),
            }
        };
        let sh: Arc<std::sync::Mutex<Vec<(bool, bool)>>> = Default::default();
        let s2 = sh.clone();
        let (go, gone) = tokio::sync::oneshot::channel::<()>();
        let keep = serve(w, x);
        w.spawn(async move {
            let b = how()(vaux_client::ClientBuilder::new(conn(0, "127.0.0.1", Some(pki().right.clone()))));
            let mut c = b.build().await.unwrap();
            let r = c.try_start(std::time::Duration::from_millis(WAIT), true).await;
            let up = c.connected().await;
            s2.lock().unwrap().push((r.is_ok(), up));
            if r.is_ok() {
                let _ = c.stop().await;
                return;
            }
            let _ = gone.await;
            let r = c.try_start(std::time::Duration::from_millis(WAIT), true).await;
            let up = c.connected().await;
            s2.lock().unwrap().push((r.is_ok(), up));
        });
        settle(w);
        w.advance(WAIT + 500);
        settle(w);
        let check = |w: &mut World, n: usize, k: usize| {
            let v = sh.lock().unwrap().clone();
            match v.get(n) {
                None => w.fail("trust/waits", format!("start {n} does not return")),
                Some((ok, up)) => {
                    if *ok != (k == 0) || *up != (k == 0) {
                        w.fail("trust/start", format!("start {n} against server {k} returns ok={ok}, connected={up}"))
                    }
                }
            }
            secrecy(w);
        };
        check(w, 0, x);
        if x == 0 || w.dead {
            return;
        }
        drop(keep);
        tokio::sim::net::unlisten(PORT);
        let _keep = serve(w, y);
        let _ = go.send(());
        settle(w);
        w.advance(WAIT + 500);
        settle(w);
        check(w, 1, y);
        panics(w);
    });
    // the broker's side
    explore(ctx, "broker with TLS", Cfg::NONE, &|w| {
        let hello: &[u8] = &[0x16, 3, 1, 0, 200, 1, 0, 0, 196, 3, 3];
        let c = refmqtt::encode(&connect("plain", true), refmqtt::Form::Long);
        let s = refmqtt::encode(&publish("x", 0, 0, b"no"), refmqtt::Form::Long);
        let inputs: Vec<Vec<u8>> = vec![c.clone(), [c.clone(), s].concat(), hello.to_vec(), vec![], vec![0; 50], vec![0x15, 3, 3, 0, 2, 2, 40], [hello.to_vec(), c].concat()];
        let a = w.pick(inputs.len());
        let b = w.pick(inputs.len());
        let piece = [usize::MAX, 1][w.pick(2)];
        let ends = w.pick(3);
        w.note(format!("raw {a} and {b}, pieces {piece}, end {ends}"));
        tokio::sim::net::log();
        shape(usize::MAX, piece, piece);
        Net::start(w, tls_config(&p.servers[0].acceptor));
        let mut raw: Vec<Peer> = vec![];
        for i in [a, b] {
            let Some(s) = tokio::sim::net::TcpStream::dial(PORT) else { return };
            let q = Peer::from(s, "raw");
            q.send_raw(&inputs[i]);
            settle(w);
            raw.push(q);
        }
        match ends {
            1 => raw[0].close(),
            2 => raw[0].reset(),
            _ => {}
        }
        settle(w);
        let mut c = client();
        c.launch_with(w, conn(0, "127.0.0.1", Some(p.right.clone())), how(), None, true, None);
        settle(w);
        w.advance(500);
        if c.connected() != Some(true) {
            w.fail("tls-broker/others", format!("after other connections without TLS a client does not get connected: {}", c.why()));
            return;
        }
        c.push(&subscribe(3, &[("#", 0)]));
        settle(w);
        for (i, q) in raw.iter_mut().enumerate() {
            let v = q.take_raw();
            // TLS alerts at most
            let mut x = &v[..];
            while x.len() >= 5 && x[0] == 0x15 && x[1] == 3 {
                let n = 5 + x[3] as usize * 256 + x[4] as usize;
                x = &x[n.min(x.len())..];
            }
            // (the last one perhaps cut short)
            if !x.is_empty() && !(x.len() < 5 && x[0] == 0x15) {
                w.fail("tls-broker/plain", format!("raw connection {i} is answered {}", mcbase::hexclip(&v)));
            }
        }
        let got = c.app();
        if got.iter().any(|p| matches!(p, refmqtt::P::Publish { .. })) {
            w.fail("tls-broker/plain", format!("a message sent without TLS is routed: {}", shows(&got)));
        }
        panics(w);
    });
}
