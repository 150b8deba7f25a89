//! In-memory TCP under the control of the checks.
use super::{preempt, Kind};
use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
use std::collections::{BTreeMap, VecDeque};
use std::future::poll_fn;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// One direction of a connection.
#[derive(Debug)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    /// bytes that may be in flight before writes wait
    pub cap: usize,
    /// the writer is done: reads end with EOF once `buf` is empty
    pub fin: bool,
    /// the reader is gone: writes fail
    pub reader_gone: bool,
    /// reads fail with this once `buf` is empty
    pub read_err: Option<io::ErrorKind>,
    /// writes fail with this after `fail_after` more accepted bytes
    pub write_err: Option<io::ErrorKind>,
    pub fail_after: usize,
    /// largest number of bytes one read returns / one write accepts
    pub rmax: usize,
    pub wmax: usize,
    /// sizes of the next reads/writes, before rmax/wmax apply; 0 = not ready once
    pub rplan: VecDeque<usize>,
    pub wplan: VecDeque<usize>,
    /// bytes ever accepted
    pub total: u64,
    /// swallow writes
    pub discard: bool,
    /// everything ever accepted, if wanted
    pub log: Option<Vec<u8>>,
    /// reads answered with no bytes in a row
    pub zero_reads: u32,
    rw: Option<Waker>,
    ww: Option<Waker>,
}
impl Default for Pipe {
    fn default() -> Self {
        Pipe {
            buf: VecDeque::new(),
            cap: usize::MAX,
            fin: false,
            reader_gone: false,
            read_err: None,
            write_err: None,
            fail_after: 0,
            rmax: usize::MAX,
            wmax: usize::MAX,
            rplan: VecDeque::new(),
            wplan: VecDeque::new(),
            total: 0,
            discard: false,
            log: None,
            zero_reads: 0,
            rw: None,
            ww: None,
        }
    }
}
impl Pipe {
    fn wake_r(&mut self) {
        if let Some(w) = self.rw.take() {
            w.wake()
        }
    }
    fn wake_w(&mut self) {
        if let Some(w) = self.ww.take() {
            w.wake()
        }
    }
    pub fn wake(&mut self) {
        self.wake_r();
        self.wake_w()
    }
}
pub type Shared = Arc<Mutex<Pipe>>;

pub struct TcpStream {
    pub rx: Shared,
    pub tx: Shared,
    local: SocketAddr,
    peer: SocketAddr,
}
impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TcpStream({} -> {})", self.local, self.peer)
    }
}

#[derive(Debug, Default)]
struct Backlog {
    /// accepts that fail before the next one succeeds
    failures: usize,
    queue: VecDeque<(TcpStream, SocketAddr)>,
    waker: Option<Waker>,
    open: bool,
}
#[derive(Default)]
struct World {
    listeners: BTreeMap<u16, Arc<Mutex<Backlog>>>,
    next_port: u16,
    /// connects to these ports never finish
    blackholes: Vec<u16>,
    slow: Vec<(u16, u64)>,
    /// connections dialled so far, in order
    dialled: Vec<Dialled>,
    /// (cap, rmax, wmax) of connections dialled from now on
    shape: Option<(usize, usize, usize)>,
    log: bool,
}
/// The two directions of a dialled connection.
#[derive(Clone)]
pub struct Dialled {
    pub port: u16,
    pub up: Shared,
    pub down: Shared,
}
impl Dialled {
    /// The connection breaks for both sides; `lost`: with what is under way.
    pub fn reset(&self, lost: bool) {
        for p in [&self.up, &self.down] {
            let mut p = p.lock().unwrap();
            if lost {
                p.buf.clear();
            }
            p.read_err = Some(io::ErrorKind::ConnectionReset);
            p.write_err = Some(io::ErrorKind::ConnectionReset);
            p.fail_after = 0;
            p.wake();
        }
    }
    pub fn over(&self) -> bool {
        self.up.lock().unwrap().fin
    }
}
/// Frees a port whoever listens there.
pub fn unlisten(port: u16) {
    W.with(|w| {
        w.borrow_mut().listeners.remove(&port);
    })
}
/// The connections dialled so far are no longer of interest.
pub fn forget_dialled() {
    W.with(|w| w.borrow_mut().dialled = vec![])
}
/// Keep what is sent on connections dialled from now on.
pub fn log() {
    W.with(|w| w.borrow_mut().log = true)
}
pub fn dialled(port: u16) -> Vec<Dialled> {
    W.with(|w| w.borrow().dialled.iter().filter(|d| d.port == port).cloned().collect())
}
/// Windows and largest pieces of all connections dialled from now on.
pub fn shape(cap: usize, rmax: usize, wmax: usize) {
    W.with(|w| w.borrow_mut().shape = Some((cap, rmax, wmax)))
}
thread_local! {
    static W: std::cell::RefCell<World> = const { std::cell::RefCell::new(World { listeners: BTreeMap::new(), next_port: 40000, blackholes: Vec::new(), slow: Vec::new(), dialled: Vec::new(), shape: None, log: false }) };
}
pub fn reset() {
    W.with(|w| {
        let mut w = w.borrow_mut();
        *w = World { next_port: 40000, ..World::default() };
    })
}
/// The next `n` accepts on this port fail.
pub fn fail_accepts(port: u16, n: usize) {
    W.with(|w| {
        if let Some(l) = w.borrow().listeners.get(&port) {
            let mut l = l.lock().unwrap();
            l.failures += n;
            if let Some(k) = l.waker.take() {
                k.wake()
            }
        }
    })
}
/// Connecting to this port takes that many milliseconds.
pub fn slow(port: u16, ms: u64) {
    W.with(|w| w.borrow_mut().slow.push((port, ms)))
}
pub fn blackhole(port: u16) {
    W.with(|w| w.borrow_mut().blackholes.push(port))
}
fn addr(port: u16) -> SocketAddr {
    SocketAddr::from(([127, 0, 0, 1], port))
}

impl TcpStream {
    pub fn pair(a: SocketAddr, b: SocketAddr) -> (TcpStream, TcpStream) {
        let x: Shared = Default::default();
        let y: Shared = Default::default();
        (
            TcpStream { rx: x.clone(), tx: y.clone(), local: a, peer: b },
            TcpStream { rx: y, tx: x, local: b, peer: a },
        )
    }
    /// Connects at once; `None` if nobody listens.
    pub fn dial(port: u16) -> Option<TcpStream> {
        W.with(|w| {
            let mut w = w.borrow_mut();
            w.next_port += 1;
            let me = addr(w.next_port);
            let l = w.listeners.get(&port)?.clone();
            let mut l = l.lock().unwrap();
            if !l.open {
                return None;
            }
            let (c, s) = TcpStream::pair(me, addr(port));
            if let Some((cap, r, x)) = w.shape {
                for p in [&c.tx, &c.rx] {
                    let mut p = p.lock().unwrap();
                    (p.cap, p.rmax, p.wmax) = (cap, r, x);
                }
            }
            if w.log {
                for p in [&c.tx, &c.rx] {
                    p.lock().unwrap().log = Some(Vec::new());
                }
            }
            w.dialled.push(Dialled { port, up: c.tx.clone(), down: c.rx.clone() });
            l.queue.push_back((s, me));
            if let Some(k) = l.waker.take() {
                k.wake()
            }
            Some(c)
        })
    }
    pub async fn connect<A: crate::net::ToSocketAddrs>(a: A) -> io::Result<TcpStream> {
        let mut last = io::Error::new(io::ErrorKind::InvalidInput, "no address");
        for a in crate::net::to_socket_addrs(a).await? {
            if W.with(|w| w.borrow().blackholes.contains(&a.port())) {
                std::future::pending::<()>().await;
            }
            if let Some(ms) = W.with(|w| w.borrow().slow.iter().find(|x| x.0 == a.port()).map(|x| x.1)) {
                crate::time::sleep(std::time::Duration::from_millis(ms)).await;
            }
            poll_fn(|cx| if preempt(Kind::Write, cx) { Poll::Pending } else { Poll::Ready(()) }).await;
            match TcpStream::dial(a.port()) {
                Some(s) => return Ok(s),
                None => last = io::ErrorKind::ConnectionRefused.into(),
            }
        }
        Err(last)
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.peer)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.local)
    }
    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        Ok(true)
    }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn set_zero_linger(&self) -> io::Result<()> {
        Ok(())
    }
    pub fn into_split(self) -> (crate::io::ReadHalf<TcpStream>, crate::io::WriteHalf<TcpStream>) {
        crate::io::split(self)
    }
    pub fn try_read(&self, out: &mut [u8]) -> io::Result<usize> {
        let mut p = self.rx.lock().unwrap();
        take(&mut p, out.len()).map(|r| match r {
            Ok(v) => {
                out[..v.len()].copy_from_slice(&v);
                Ok(v.len())
            }
            Err(e) => Err(e),
        })
        .unwrap_or_else(|| Err(io::ErrorKind::WouldBlock.into()))
    }
    pub fn try_write(&self, b: &[u8]) -> io::Result<usize> {
        let mut p = self.tx.lock().unwrap();
        let n = b.len().min(p.cap.saturating_sub(p.buf.len())).min(p.wmax);
        if p.fin || p.reader_gone {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        if let Some(k) = p.write_err {
            return Err(k.into());
        }
        if n == 0 && !b.is_empty() {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        p.buf.extend(&b[..n]);
        if let Some(l) = &mut p.log {
            l.extend(&b[..n])
        }
        p.total += n as u64;
        p.wake_r();
        Ok(n)
    }
    pub async fn writable(&self) -> io::Result<()> {
        poll_fn(|cx| {
            let mut p = self.tx.lock().unwrap();
            if p.fin || p.reader_gone || p.write_err.is_some() || p.cap > p.buf.len() {
                return Poll::Ready(Ok(()));
            }
            p.ww = Some(cx.waker().clone());
            Poll::Pending
        })
        .await
    }
    pub async fn peek(&self, out: &mut [u8]) -> io::Result<usize> {
        self.readable().await?;
        let p = self.rx.lock().unwrap();
        if let (true, Some(k)) = (p.buf.is_empty(), p.read_err) {
            return Err(k.into());
        }
        let n = out.len().min(p.buf.len());
        out.iter_mut().zip(p.buf.iter()).for_each(|(a, b)| *a = *b);
        Ok(n)
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    pub async fn readable(&self) -> io::Result<()> {
        poll_fn(|cx| {
            let mut p = self.rx.lock().unwrap();
            if !p.buf.is_empty() || p.fin || p.read_err.is_some() {
                return Poll::Ready(Ok(()));
            }
            p.rw = Some(cx.waker().clone());
            Poll::Pending
        })
        .await
    }
}
fn take(p: &mut Pipe, room: usize) -> Option<io::Result<Vec<u8>>> {
    let r = take_some(p, room);
    match &r {
        Some(Ok(v)) if v.is_empty() => {
            p.zero_reads += 1;
            assert!(p.zero_reads < 2000, "reading goes on for ever after the end of the stream (or without room)");
        }
        _ => p.zero_reads = 0,
    }
    r
}
fn take_some(p: &mut Pipe, room: usize) -> Option<io::Result<Vec<u8>>> {
    if room == 0 {
        return Some(Ok(Vec::new()));
    }
    if p.buf.is_empty() {
        if let Some(k) = p.read_err {
            return Some(Err(k.into()));
        }
        if p.fin {
            return Some(Ok(Vec::new()));
        }
        return None;
    }
    let mut n = room.min(p.buf.len()).min(p.rmax);
    if let Some(k) = p.rplan.pop_front() {
        if k == 0 {
            return None;
        }
        n = n.min(k);
    }
    let v: Vec<u8> = p.buf.drain(..n).collect();
    super::progress();
    p.wake_w();
    Some(Ok(v))
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut p = self.rx.lock().unwrap();
        match take(&mut p, b.remaining()) {
            Some(Ok(v)) => {
                b.put_slice(&v);
                Poll::Ready(Ok(()))
            }
            Some(Err(e)) => Poll::Ready(Err(e)),
            None => {
                p.rw = Some(cx.waker().clone());
                if !p.buf.is_empty() {
                    cx.waker().wake_by_ref()
                }
                Poll::Pending
            }
        }
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if preempt(Kind::Write, cx) {
            return Poll::Pending;
        }
        let mut p = self.tx.lock().unwrap();
        if p.fin {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if p.reader_gone {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if b.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let mut n = b.len();
        if let Some(k) = p.write_err {
            if p.fail_after == 0 {
                return Poll::Ready(Err(k.into()));
            }
            n = n.min(p.fail_after);
        }
        if p.discard {
            p.total += n as u64;
            return Poll::Ready(Ok(n));
        }
        let room = p.cap.saturating_sub(p.buf.len());
        if room == 0 {
            p.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        n = n.min(room).min(p.wmax);
        if let Some(k) = p.wplan.pop_front() {
            if k == 0 {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            n = n.min(k);
        }
        p.buf.extend(&b[..n]);
        super::progress();
        if let Some(l) = &mut p.log {
            l.extend(&b[..n])
        }
        p.total += n as u64;
        if p.write_err.is_some() {
            p.fail_after -= n
        }
        p.wake_r();
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.tx.lock().unwrap();
        p.fin = true;
        p.wake_r();
        Poll::Ready(Ok(()))
    }
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        if let Ok(mut p) = self.tx.lock() {
            p.fin = true;
            p.wake_r();
        }
        if let Ok(mut p) = self.rx.lock() {
            p.reader_gone = true;
            p.wake_w();
        }
    }
}

#[derive(Debug)]
pub struct TcpListener {
    port: u16,
    q: Arc<Mutex<Backlog>>,
}
impl TcpListener {
    /// Synchronous bind, for the checks.
    pub fn listen(port: u16) -> io::Result<TcpListener> {
        W.with(|w| {
            let mut w = w.borrow_mut();
            let port = if port == 0 {
                w.next_port += 1;
                w.next_port
            } else {
                port
            };
            if let Some(l) = w.listeners.get(&port) {
                if l.lock().unwrap().open {
                    return Err(io::ErrorKind::AddrInUse.into());
                }
            }
            let q = Arc::new(Mutex::new(Backlog { open: true, ..Default::default() }));
            w.listeners.insert(port, q.clone());
            Ok(TcpListener { port, q })
        })
    }
    pub fn try_accept(&self) -> Option<TcpStream> {
        self.q.lock().unwrap().queue.pop_front().map(|x| x.0)
    }
    pub async fn bind<A: crate::net::ToSocketAddrs>(a: A) -> io::Result<TcpListener> {
        let mut last = io::Error::new(io::ErrorKind::InvalidInput, "no address");
        for a in crate::net::to_socket_addrs(a).await? {
            match TcpListener::listen(a.port()) {
                Ok(l) => return Ok(l),
                Err(e) => last = e,
            }
        }
        Err(last)
    }
    pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        poll_fn(|cx| self.poll_accept(cx)).await
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        let mut q = self.q.lock().unwrap();
        if q.failures > 0 {
            q.failures -= 1;
            return Poll::Ready(Err(io::Error::from_raw_os_error(24)));
        }
        match q.queue.pop_front() {
            Some(x) => Poll::Ready(Ok(x)),
            None => {
                q.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(addr(self.port))
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        let q = match self.q.lock() {
            Ok(mut q) => {
                q.open = false;
                std::mem::take(&mut q.queue)
            }
            Err(_) => return,
        };
        drop(q);
    }
}
