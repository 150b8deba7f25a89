//! The broker program, run as a process over loopback with every combination of its options.
use mcbase::Ctx;
use refmqtt::{Form, P, PV, Prop};
use std::io::{BufRead, BufReader, ErrorKind, Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, mpsc};
use std::time::{Duration, Instant};

/// Nothing here takes a second; a verdict "never" is given after this.
const LONG: Duration = Duration::from_secs(25);

unsafe extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

trait Duplex: Read + Write {}
impl<T: Read + Write> Duplex for T {}

struct Conn {
    s: Box<dyn Duplex>,
    buf: Vec<u8>,
}
#[derive(Debug)]
enum Got {
    P(P),
    Bad(#[allow(unused)] String),
    End,
    Nothing,
}
impl Conn {
    fn send(&mut self, p: &P) {
        let _ = self.s.write_all(&refmqtt::encode(p, Form::Long));
        let _ = self.s.flush();
    }
    fn next(&mut self) -> Got {
        let end = Instant::now() + LONG;
        loop {
            if let refmqtt::Framing::Frame(n, _) = refmqtt::framing(&self.buf) {
                let f: Vec<u8> = self.buf.drain(..n).collect();
                return match refmqtt::decode(&f) {
                    Ok((p, _)) => Got::P(p),
                    Err(e) => Got::Bad(format!("{e:?}: {f:02x?}")),
                };
            }
            let mut b = [0u8; 4096];
            match self.s.read(&mut b) {
                Ok(0) => return Got::End,
                Ok(n) => self.buf.extend(&b[..n]),
                Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => {}
                Err(_) => return Got::End,
            }
            if Instant::now() > end {
                return Got::Nothing;
            }
        }
    }
}
fn tcp(a: SocketAddr) -> std::io::Result<TcpStream> {
    let s = TcpStream::connect_timeout(&a, LONG)?;
    s.set_read_timeout(Some(Duration::from_millis(200)))?;
    s.set_nodelay(true)?;
    Ok(s)
}
fn dial(a: SocketAddr, ca: Option<&Arc<rustls::ClientConfig>>) -> std::io::Result<Conn> {
    let mut s = tcp(a)?;
    Ok(Conn {
        s: match ca {
            None => Box::new(s),
            Some(c) => {
                let name = rustls::pki_types::ServerName::try_from("localhost").unwrap();
                let mut t = rustls::ClientConnection::new(c.clone(), name).map_err(std::io::Error::other)?;
                s.set_read_timeout(Some(LONG))?;
                while t.is_handshaking() {
                    t.complete_io(&mut s)?;
                }
                s.set_read_timeout(Some(Duration::from_millis(200)))?;
                Box::new(rustls::StreamOwned::new(t, s))
            }
        },
        buf: vec![],
    })
}
fn connect(id: &str, expiry: Option<u32>) -> P {
    P::Connect {
        clean: true,
        keep_alive: 60,
        props: expiry.map(|e| Prop { id: 0x11, v: PV::U32(e) }).into_iter().collect(),
        client_id: id.into(),
        will: None,
        username: None,
        password: None,
    }
}

struct Proc {
    c: Child,
    lines: mpsc::Receiver<(bool, String)>,
    said: Vec<String>,
}
impl Proc {
    fn start(vaux: &Path, args: &[String]) -> Proc {
        let mut c = Command::new(vaux).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("vaux starts");
        let (tx, lines) = mpsc::channel();
        let (o, e) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
        let t2 = tx.clone();
        std::thread::spawn(move || BufReader::new(o).lines().map_while(Result::ok).for_each(|l| drop(tx.send((true, l)))));
        std::thread::spawn(move || BufReader::new(e).lines().map_while(Result::ok).for_each(|l| drop(t2.send((false, l)))));
        Proc { c, lines, said: vec![] }
    }
    /// Waits for a line that contains `what`, or the end of the process.
    fn says(&mut self, what: &str) -> bool {
        let end = Instant::now() + LONG;
        loop {
            match self.lines.recv_timeout(Duration::from_millis(50)) {
                Ok((_, l)) => {
                    let hit = l.contains(what);
                    self.said.push(l);
                    if hit {
                        return true;
                    }
                }
                Err(mpsc::RecvTimeoutError::Disconnected) => return false,
                Err(_) if Instant::now() > end => return false,
                Err(_) => {}
            }
        }
    }
    /// How the process ended, if it ends.
    fn ends(&mut self) -> Option<std::process::ExitStatus> {
        let end = Instant::now() + LONG;
        while Instant::now() < end {
            if let Ok(Some(s)) = self.c.try_wait() {
                while let Ok((_, l)) = self.lines.recv_timeout(Duration::from_millis(20)) {
                    self.said.push(l)
                }
                return Some(s);
            }
            std::thread::sleep(Duration::from_millis(3));
        }
        None
    }
    fn interrupt(&self) {
        unsafe { kill(self.c.id() as i32, 2) };
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.c.kill();
        let _ = self.c.wait();
    }
}

#[derive(Clone, Debug)]
struct Case {
    /// -l is given
    addr: bool,
    /// -p is given
    port: bool,
    long: bool,
    active: Option<u32>,
    expiry: Option<u32>,
    channel: Option<usize>,
    tls: bool,
    /// options without effect here
    other: bool,
}
struct Files {
    cert: String,
    key: String,
    other_key: String,
    empty: String,
    ca: Arc<rustls::ClientConfig>,
}
fn files(dir: &Path) -> Files {
    let k = rcgen::generate_simple_self_signed(vec!["localhost".to_string()]).unwrap();
    let k2 = rcgen::generate_simple_self_signed(vec!["localhost".to_string()]).unwrap();
    let put = |n: &str, s: &str| -> String {
        let p = dir.join(n);
        std::fs::write(&p, s).unwrap();
        p.display().to_string()
    };
    let mut roots = rustls::RootCertStore::empty();
    roots.add(k.cert.der().clone()).unwrap();
    Files {
        cert: put("cert.pem", &k.cert.pem()),
        key: put("key.pem", &k.signing_key.serialize_pem()),
        other_key: put("other.pem", &k2.signing_key.serialize_pem()),
        empty: put("empty.pem", ""),
        ca: Arc::new(rustls::ClientConfig::builder().with_root_certificates(roots).with_no_client_auth()),
    }
}
/// A loopback address nobody else uses at this moment.
fn fresh() -> String {
    static N: AtomicUsize = AtomicUsize::new(0);
    let n = N.fetch_add(1, SeqCst) + 300;
    let p = std::process::id() as usize;
    format!("127.{}.{}.{}", 64 + p % 128, n / 250 % 250, n % 250 + 1)
}
fn free_port() -> u16 {
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}

fn serve(vaux: &Path, f: &Files, c: &Case) -> Result<(), (String, String)> {
    let bad = |k: &str, m: String| Err((k.to_string(), m));
    let ip = if c.addr { fresh() } else { "127.0.0.1".into() };
    let port = if c.port { if c.addr { 2883 } else { free_port() } } else if c.tls { 8883 } else { 1883 };
    let at: SocketAddr = format!("{ip}:{port}").parse().unwrap();
    let mut a: Vec<String> = vec![];
    let mut opt = |s: &str, l: &str, v: String| a.extend([if c.long { l } else { s }.to_string(), v]);
    if c.addr {
        opt("-l", "--listen-addr", ip.clone())
    }
    if c.port {
        opt("-p", "--port", port.to_string())
    }
    if let Some(n) = c.active {
        opt("-a", "--max-active-sessions", n.to_string())
    }
    if let Some(n) = c.expiry {
        opt("-x", "--session-expiration", n.to_string())
    }
    if let Some(n) = c.channel {
        opt("--channel-size", "--channel-size", n.to_string())
    }
    if c.tls {
        opt("--tls-cert", "--tls-cert", f.cert.clone());
        opt("--tls-key", "--tls-key", f.key.clone())
    }
    if c.other {
        opt("-s", "--max-sessions", "100".into());
        opt("-t", "--session-timeout", "60".into());
        opt("-T", "--max-session-timeout", "600".into());
    }
    let mut p = Proc::start(vaux, &a);
    if !p.says("Broker started on") {
        return bad("start", format!("the broker does not start: {}", p.said.join(" | ")));
    }
    let last = p.said.last().unwrap().clone();
    if !last.contains(&at.to_string()) || last.contains("TLS enabled") != c.tls {
        return bad("report", format!("listening on {at}, TLS {}, it reports {last:?}", c.tls));
    }
    let ca = c.tls.then_some(&f.ca);
    // sessions up to the limit, and not beyond
    let n = c.active.map_or(4, |n| n.min(4)) as usize;
    let mut open = vec![];
    for k in 0..n {
        match dial(at, ca) {
            Ok(mut s) => {
                s.send(&connect(&format!("c{k}"), None));
                match s.next() {
                    Got::P(P::ConnAck { reason: 0, sp: false, .. }) => open.push(s),
                    g => return bad("serve", format!("client {k} of {:?} allowed is answered {g:?}", c.active)),
                }
            }
            Err(e) => return bad("listen", format!("nothing listens on {at}: {e}")),
        }
    }
    if c.active.is_some_and(|m| m <= 4) {
        let Ok(mut s) = dial(at, ca) else { return bad("listen", format!("nothing listens on {at}")) };
        s.send(&connect("beyond", None));
        match s.next() {
            Got::P(P::ConnAck { reason: 0x97, .. }) => {}
            g => return bad("limit", format!("client {n} of {:?} allowed is answered {g:?}", c.active)),
        }
        if let Some(mut o) = open.pop() {
            o.send(&P::Disconnect { reason: 0, props: vec![] });
            while !matches!(o.next(), Got::End | Got::Nothing) {}
        }
    }
    // the greatest session expiry
    if c.active != Some(0) {
        let max = c.expiry.unwrap_or(600);
        for (ask, told) in [(max, None), (max.saturating_add(1), (max < u32::MAX).then_some(max)), (1, (max < 1).then_some(max))] {
            if c.active == Some(1) {
                open.clear();
            }
            let Ok(mut s) = dial(at, ca) else { return bad("listen", format!("nothing listens on {at}")) };
            s.send(&connect("c0", Some(ask)));
            match s.next() {
                Got::P(P::ConnAck { reason: 0, props, .. }) => {
                    let e = props.iter().find(|p| p.id == 0x11).map(|p| p.v.clone());
                    if e != told.map(PV::U32) {
                        return bad("expiry", format!("asked for an expiry of {ask} of {max}, the broker announces {e:?}"));
                    }
                }
                g => return bad("serve", format!("a client asking for an expiry of {ask} is answered {g:?}")),
            }
            // and its messages travel
            s.send(&P::Subscribe { pid: 1, props: vec![], filters: vec![("t/+".into(), 1)] });
            s.send(&P::Publish { dup: false, qos: 1, retain: false, topic: "t/x".into(), pid: Some(5), props: vec![], payload: b"hello".to_vec() });
            let (mut suback, mut puback, mut msg) = (false, false, false);
            for _ in 0..3 {
                match s.next() {
                    Got::P(P::SubAck { .. }) => suback = true,
                    Got::P(P::Ack { kind: 4, pid: 5, .. }) => puback = true,
                    Got::P(P::Publish { payload, .. }) if payload == b"hello" => msg = true,
                    g => return bad("serve", format!("subscribed and published, received {g:?}")),
                }
            }
            if !(suback && puback && msg) {
                return bad("serve", "subscribed and published, not all answers came".into());
            }
            s.send(&P::Disconnect { reason: 0, props: vec![] });
            while !matches!(s.next(), Got::End | Got::Nothing) {}
        }
    }
    if c.tls {
        // without TLS nobody is served
        let Ok(mut s) = dial(at, None) else { return bad("listen", format!("nothing listens on {at}")) };
        s.send(&connect("plain", None));
        if let Got::P(g) = s.next() {
            return bad("plain", format!("a client without TLS is answered {g:?}"));
        }
    }
    p.interrupt();
    match p.ends() {
        Some(s) if s.success() => {}
        Some(s) => return bad("stop", format!("interrupted, it ends with {s}: {}", p.said.join(" | "))),
        None => return bad("stop", "interrupted, it does not end".into()),
    }
    if TcpStream::connect_timeout(&at, LONG).is_ok() {
        return bad("stop", "ended, something still listens".into());
    }
    Ok(())
}

/// Options that make no sense: the program says so and ends in failure, and nothing listens.
fn refuse(vaux: &Path, args: &[String], at: SocketAddr) -> Result<(), (String, String)> {
    let mut p = Proc::start(vaux, args);
    match p.ends() {
        None => Err(("refuse".into(), format!("{args:?}: it goes on: {}", p.said.join(" | ")))),
        Some(s) if s.success() => Err(("refuse".into(), format!("{args:?}: it ends as if all were well: {}", p.said.join(" | ")))),
        Some(_) if p.said.iter().any(|l| l.contains("Broker started on")) => {
            Err(("report".into(), format!("{args:?}: it has claimed to have started: {}", p.said.join(" | "))))
        }
        Some(_) if p.said.is_empty() => Err(("refuse".into(), format!("{args:?}: it ends without a word"))),
        Some(_) if TcpStream::connect_timeout(&at, LONG).is_ok() => Err(("refuse".into(), format!("{args:?}: something listens on {at}"))),
        Some(_) => Ok(()),
    }
}

fn a01(ctx: &Ctx, vaux: &Path, dir: &Path) {
    ctx.rule("the product of listen address, port, session limit, session expiry, queue size, TLS and ignored options, each given or not, short and long: the real program as a process, its clients over loopback; every senseless combination; an address in use");
    let f = files(dir);
    type Job = Box<dyn Fn() -> Result<(), (String, String)> + Send + Sync>;
    let mut jobs: Vec<(String, bool, Job)> = vec![];
    let f = Arc::new(f);
    let exps: &[Option<u32>] = if ctx.thorough { &[None, Some(0), Some(1), Some(7), Some(86_400), Some(u32::MAX)] } else { &[None, Some(0), Some(7), Some(u32::MAX)] };
    for (addr, port) in [(true, true), (true, false), (false, true), (false, false)] {
        for long in [false, true] {
            for active in [None, Some(0), Some(1), Some(3)] {
                for &expiry in exps {
                    for channel in [None, Some(1), Some(64)] {
                        for tls in [false, true] {
                            for other in [false, true] {
                                // the defaults and the rarer dimensions against fewer of the others
                                let odd = long as u8 + other as u8 + (channel == Some(64)) as u8 + !(addr && port) as u8 + (active == Some(0)) as u8;
                                if odd > if ctx.thorough { 2 } else { 1 } {
                                    continue;
                                }
                                let c = Case { addr, port, long, active, expiry, channel, tls, other };
                                let (v, f, c2) = (vaux.to_path_buf(), f.clone(), c.clone());
                                jobs.push((format!("{c:?}"), !addr && !port, Box::new(move || serve(&v, &f, &c2))));
                            }
                        }
                    }
                }
            }
        }
    }
    let s = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    let mut wrong: Vec<Vec<String>> = vec![];
    for l in ["localhost", "", "1.2.3", "::1", "127.0.0.1:1883", "300.0.0.1"] {
        wrong.push(s(&["-l", l, "-p", "2883"]))
    }
    let here = fresh();
    for p in ["65536", "-1", "x", ""] {
        wrong.push(s(&["-l", &here, "-p", p]))
    }
    for (o, v) in [("-a", "-1"), ("-a", "x"), ("-x", "4294967296"), ("-x", "1.5"), ("--channel-size", "many"), ("--channel-size", "-1"), ("--channel-size", "0"), ("--nothing", "1")] {
        wrong.push(s(&["-l", &here, "-p", "2883", o, v]))
    }
    for (c, k) in [
        (Some(f.cert.as_str()), None),
        (None, Some(f.key.as_str())),
        (Some("/nonexistent/cert.pem"), Some(&f.key)),
        (Some(&f.cert), Some("/nonexistent/key.pem")),
        (Some(&f.empty), Some(&f.key)),
        (Some(&f.cert), Some(&f.empty)),
        (Some(&f.cert), Some(&f.cert)),
        (Some(&f.key), Some(&f.key)),
        (Some(&f.key), Some(&f.cert)),
        (Some(&f.cert), Some(&f.other_key)),
        (Some(dir.to_str().unwrap()), Some(&f.key)),
    ] {
        let mut a = s(&["-l", &here, "-p", "2883"]);
        for (o, v) in [("--tls-cert", c), ("--tls-key", k)] {
            if let Some(v) = v {
                a.extend(s(&[o, v]))
            }
        }
        wrong.push(a)
    }
    ctx.count("senseless options", wrong.len() as u64);
    for a in wrong {
        let v = vaux.to_path_buf();
        let at: SocketAddr = format!("{here}:2883").parse().unwrap();
        jobs.push((format!("refuse {a:?}"), false, Box::new(move || refuse(&v, &a, at))));
    }
    // an address in use
    for tls in [false, true] {
        let (v, f) = (vaux.to_path_buf(), f.clone());
        jobs.push((
            format!("address in use, TLS {tls}"),
            false,
            Box::new(move || {
                let ip = fresh();
                let l = std::net::TcpListener::bind(format!("{ip}:2883")).unwrap();
                let mut a = vec!["-l".to_string(), ip.clone(), "-p".into(), "2883".into()];
                if tls {
                    a.extend(["--tls-cert".into(), f.cert.clone(), "--tls-key".into(), f.key.clone()])
                }
                let far: SocketAddr = format!("{}:2883", fresh()).parse().unwrap();
                let r = refuse(&v, &a, far);
                drop(l);
                r
            }),
        ));
    }
    // two brokers side by side
    {
        let v = vaux.to_path_buf();
        jobs.push((
            "two at once".into(),
            false,
            Box::new(move || {
                let ip = fresh();
                let a = vec!["-l".to_string(), ip.clone(), "-p".into(), "2883".into()];
                let mut one = Proc::start(&v, &a);
                if !one.says("Broker started on") {
                    return Err(("start".into(), format!("the broker does not start: {}", one.said.join(" | "))));
                }
                let far: SocketAddr = format!("{}:2883", fresh()).parse().unwrap();
                refuse(&v, &a, far)?;
                // the first is unharmed
                let at: SocketAddr = format!("{ip}:2883").parse().unwrap();
                let Ok(mut s) = dial(at, None) else { return Err(("listen".into(), "the first broker has gone".into())) };
                s.send(&connect("c", None));
                match s.next() {
                    Got::P(P::ConnAck { reason: 0, .. }) => {}
                    g => return Err(("serve".into(), format!("the first broker answers {g:?}"))),
                }
                one.interrupt();
                if !one.ends().is_some_and(|s| s.success()) {
                    return Err(("stop".into(), "interrupted, it does not end well".into()));
                }
                // its place can be taken at once
                let mut two = Proc::start(&v, &a);
                if !two.says("Broker started on") {
                    return Err(("start".into(), format!("the next broker does not start: {}", two.said.join(" | "))));
                }
                match dial(at, None) {
                    Ok(_) => Ok(()),
                    Err(e) => Err(("listen".into(), format!("nothing listens: {e}"))),
                }
            }),
        ));
    }
    ctx.count("configurations", jobs.len() as u64);
    let run = |(name, _, j): &(String, bool, Job)| {
        if let Some(c) = &ctx.replay
            && c != name
        {
            return;
        }
        let mut r = j();
        // whatever else runs on this machine: a verdict must repeat
        for _ in 0..2 {
            if r.is_err() {
                r = j()
            }
        }
        ctx.tc(1);
        ctx.st(1);
        ctx.tr(1);
        ctx.sample(|| format!("{name}: {r:?}"));
        if let Err((k, m)) = r {
            ctx.violation(&k, || format!("{name}: {m}"), || name.clone());
        }
    };
    let (alone, many): (Vec<_>, Vec<_>) = jobs.into_iter().partition(|j| j.1);
    let next = Mutex::new(many.iter());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                loop {
                    let Some(j) = next.lock().unwrap().next() else { return };
                    run(j)
                }
            });
        }
    });
    // those that share the default address: one after another, if it is free here
    for j in &alone {
        if ["127.0.0.1:1883", "127.0.0.1:8883"].iter().all(|a| std::net::TcpListener::bind(a).is_ok()) {
            run(j)
        } else {
            ctx.count("not run: the default address is in use here", 1);
            ctx.not_exhaustive();
        }
    }
}

fn main() {
    let a = mcbase::args();
    let mut ctx = Ctx::new(&a.id, &a.tier, a.seed, a.verif.clone());
    if let Some(f) = &a.replay {
        ctx.replay = Some(mcbase::read_replay(f).1);
    }
    let me = std::env::current_exe().unwrap();
    let vaux: PathBuf = me.with_file_name("vaux");
    let dir = std::env::temp_dir().join(format!("vaux-cli-mc-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    match a.id.as_str() {
        "A01" => a01(&ctx, &vaux, &dir),
        x => {
            eprintln!("no check {x}");
            std::process::exit(2)
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(ctx.finish());
}
