//! Stateless, deviation-bounded, exhaustive exploration. One execution = one thread = one runtime;
//! every decision (scheduler, lock, select!, harness) is taken from a prefix, then by default.
use mcbase::{Ctx, fnv};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use tokio::sim::{self, Kind, Reached};

#[derive(Clone, Copy)]
pub struct Cfg {
    /// deviations from the default schedule allowed in one execution
    pub bound: u32,
    pub task: bool,
    pub hold: bool,
    pub select: bool,
    pub lock: bool,
    /// also stop where a lock has just been taken
    pub held: bool,
    pub write: bool,
    /// seeds of hash iteration order explored
    pub seeds: u32,
}
impl Cfg {
    pub const NONE: Cfg = Cfg { bound: 0, task: false, hold: false, select: false, lock: false, held: false, write: false, seeds: 1 };
    pub fn all(bound: u32) -> Cfg {
        Cfg { bound, task: true, hold: true, select: true, lock: true, held: true, write: true, seeds: 1 }
    }
    pub fn sched(bound: u32) -> Cfg {
        Cfg { bound, task: true, hold: false, select: true, lock: true, held: true, write: false, seeds: 1 }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Point {
    pub n: u32,
    pub chosen: u32,
    /// how much of the bound a deviation here uses up
    pub cost: u32,
}
pub struct Rec {
    prefix: Vec<u32>,
    pub points: Vec<Point>,
    diverged: bool,
    /// human-readable trace of non-default decisions
    pub trace: Vec<String>,
    off: bool,
}
impl Rec {
    fn pick(&mut self, n: u32, cost: u32) -> u32 {
        let i = self.points.len();
        let c = self.prefix.get(i).copied().unwrap_or(0);
        let c = if c >= n {
            self.diverged = true;
            0
        } else {
            c
        };
        self.points.push(Point { n, chosen: c, cost });
        c
    }
}

pub struct World {
    pub rt: Option<tokio::runtime::Runtime>,
    pub rec: Rc<RefCell<Rec>>,
    pub obs: Vec<String>,
    pub fails: Vec<(String, String)>,
    pub spun: bool,
    pub now: u64,
    /// failures of other kinds end the execution without a verdict (another check judges them)
    pub accept: Option<&'static [&'static str]>,
    pub dead: bool,
    /// one case is being replayed
    pub replay: bool,
}
impl World {
    /// Harness choice, every alternative explored at no cost.
    pub fn pick(&mut self, n: usize) -> usize {
        if n < 2 {
            return 0;
        }
        self.rec.borrow_mut().pick(n as u32, 0) as usize
    }
    /// Harness choice counted as a deviation when not 0.
    pub fn deviate(&mut self, n: usize) -> usize {
        if n < 2 {
            return 0;
        }
        self.rec.borrow_mut().pick(n as u32, 1) as usize
    }
    pub fn fail(&mut self, key: &str, desc: impl Into<String>) {
        self.dead = true;
        if let Some(a) = self.accept {
            let kind = key.split('/').next().unwrap_or("");
            if !a.contains(&kind) {
                self.note(format!("(left to another check: {key} {})", desc.into()));
                return;
            }
        }
        self.fails.push((key.into(), desc.into()))
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.obs.push(s.into())
    }
    pub fn rt(&self) -> &tokio::runtime::Runtime {
        self.rt.as_ref().unwrap()
    }
    /// Run until nothing is runnable.
    pub fn run(&mut self) -> Reached {
        let r = self.rt().block_on(sim::RunIdle(false));
        if r == Reached::Spinning {
            self.spun = true
        }
        r
    }
    /// As `run`, but the next harness event may come before idleness is reached (a deviation).
    pub fn run_or_stop(&mut self) -> Reached {
        let r = self.rt().block_on(sim::RunIdle(true));
        if r == Reached::Spinning {
            self.spun = true
        }
        r
    }
    /// Let virtual time pass, firing every timer at its own instant.
    pub fn advance(&mut self, ms: u64) {
        self.run();
        self.run();
        let mut left = ms;
        loop {
            let step = match sim::next_timer(self.rt().handle()) {
                Some(n) if n < left => n.max(1),
                _ => left,
            };
            let old = std::mem::replace(&mut self.rec.borrow_mut().off, true);
            self.rt().block_on(tokio::time::advance(std::time::Duration::from_millis(step)));
            self.rec.borrow_mut().off = old;
            self.now += step;
            left -= step;
            self.run();
            if left == 0 {
                break;
            }
        }
    }
    pub fn spawn<F>(&self, f: F) -> tokio::task::JoinHandle<F::Output>
    where
        F: std::future::Future + Send + 'static,
        F::Output: Send + 'static,
    {
        self.rt().spawn(f)
    }
    /// No scheduling decisions are branched on inside `f` (set-up and final probes).
    pub fn quiet<R>(&mut self, f: impl FnOnce(&mut World) -> R) -> R {
        let old = std::mem::replace(&mut self.rec.borrow_mut().off, true);
        let r = f(self);
        self.rec.borrow_mut().off = old;
        r
    }
}

thread_local! {
    static RAND: Cell<u64> = const { Cell::new(0) };
    static RAND_ON: Cell<bool> = const { Cell::new(false) };
}
/// Replaces libc's: inside an execution all "randomness" is a function of the explored seed.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let on = RAND_ON.try_with(|r| r.get()).unwrap_or(false);
    let s = unsafe { std::slice::from_raw_parts_mut(buf, len) };
    if on {
        for b in s {
            let x = RAND.get().wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            RAND.set(x);
            *b = (x >> 33) as u8;
        }
    } else {
        s.fill(0x5a);
    }
    len as isize
}

pub struct Done {
    pub points: Vec<Point>,
    pub obs: Vec<String>,
    pub fails: Vec<(String, String)>,
    pub diverged: bool,
    pub polls: u64,
    pub trace: Vec<String>,
}

pub fn execute(cfg: Cfg, seed: u32, prefix: &[u32], f: &(dyn Fn(&mut World) + Sync)) -> Done {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn_scoped(s, || {
                RAND.set(0x9e3779b97f4a7c15u64.wrapping_mul(seed as u64 + 1));
                RAND_ON.set(true);
                let rec = Rc::new(RefCell::new(Rec {
                    prefix: prefix.to_vec(),
                    points: vec![],
                    diverged: false,
                    trace: vec![],
                    off: false,
                }));
                let r2 = rec.clone();
                sim::net::reset();
                sim::install(Box::new(move |kind, n, ids| {
                    let mut r = r2.borrow_mut();
                    if r.off || cfg.bound == 0 {
                        return 0;
                    }
                    let n = match kind {
                        Kind::Task => {
                            // n = runnable + hold + hold longer (+ stop)
                            let k = ids.len() as u32;
                            let stop = n > k + 2;
                            let mut opts: Vec<u32> = vec![0];
                            if cfg.task {
                                opts.extend(1..k)
                            }
                            if cfg.hold {
                                if k > 1 {
                                    opts.push(k)
                                }
                                if stop {
                                    opts.push(k + 1)
                                }
                            }
                            if stop && cfg.task {
                                opts.push(k + 2)
                            }
                            if opts.len() < 2 {
                                return 0;
                            }
                            let c = r.pick(opts.len() as u32, 1);
                            let a = opts[c as usize];
                            if c != 0 {
                                let at = r.points.len();
                                let s = if a < k {
                                    format!("@{at} run task {} before {}", ids[a as usize], ids[0])
                                } else if a < k + 2 {
                                    format!("@{at} hold task {}{}", ids[0], if a == k { "" } else { " past the next event" })
                                } else {
                                    format!("@{at} next event before task {}", ids[0])
                                };
                                r.trace.push(s)
                            }
                            return a;
                        }
                        Kind::Select if cfg.select => n,
                        Kind::Held if cfg.held => {
                            if cfg.hold { 4 } else { 2 }
                        }
                        Kind::Lock if cfg.lock => {
                            if cfg.hold { 4 } else { 2 }
                        }
                        Kind::Write if cfg.write => {
                            if cfg.hold { 4 } else { 2 }
                        }
                        _ => return 0,
                    };
                    // stopping right after a lock has been taken is explored on its own only
                    let c = r.pick(n, if kind == Kind::Held { cfg.bound } else { 1 });
                    if c != 0 {
                        let at = r.points.len();
                        r.trace.push(format!("@{at} {kind:?} -> {c} (task {:?})", ids.first()));
                    }
                    c
                }));
                let rt = tokio::runtime::Builder::new_current_thread()
                    .enable_time()
                    .start_paused(true)
                    .event_interval(1_000_000)
                    .build()
                    .expect("runtime");
                let mut w =
                    World { rt: Some(rt), rec: rec.clone(), obs: vec![], fails: vec![], spun: false, now: 0, accept: None, dead: false, replay: REPLAY.load(Relaxed) };
                mcbase::take_panic();
                let h = mcbase::catch(|| f(&mut w));
                if let Err(m) = h {
                    w.fails.push(("harness-panic".into(), m));
                }
                rec.borrow_mut().off = true;
                let rt = w.rt.take();
                if mcbase::catch(move || drop(rt)).is_err() {
                    w.fails.push(("panic-on-drop".into(), String::new()))
                }
                sim::uninstall();
                sim::net::reset();
                let r = rec.borrow();
                Done {
                    points: r.points.clone(),
                    obs: std::mem::take(&mut w.obs),
                    fails: std::mem::take(&mut w.fails),
                    diverged: r.diverged,
                    polls: sim::polls(),
                    trace: r.trace.clone(),
                }
            })
            .expect("thread")
            .join()
            .expect("execution thread")
    })
}

static REPLAY: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Seconds (normally an execution takes a millisecond) after which one counts as hanging.
const HANG_S: u64 = 60;

pub struct Stats {
    pub execs: u64,
    pub outcomes: u64,
}

/// Explores scenario `name`; every execution is judged by `f` itself (via `World::fail`).
pub fn explore(ctx: &Ctx, name: &str, cfg: Cfg, f: &(dyn Fn(&mut World) + Sync)) -> Stats {
    if let Some(case) = &ctx.replay {
        let mut it = case.rsplitn(3, ' ');
        let (ch, seed, n) = (it.next().unwrap_or("-"), it.next().unwrap_or("0"), it.next().unwrap_or(""));
        if n == name {
            REPLAY.store(true, Relaxed);
            let d = execute(cfg, seed.parse().unwrap_or(0), &dec(ch), f);
            println!("scenario {name}\nschedule:");
            d.trace.iter().for_each(|t| println!("  {t}"));
            println!("history:");
            d.obs.iter().for_each(|t| println!("  {t}"));
            for (k, m) in &d.fails {
                ctx.violation(k, || m.clone(), String::new);
            }
        }
        return Stats { execs: 0, outcomes: 0 };
    }
    let q: Mutex<Vec<(u32, Vec<u32>, u32)>> = Mutex::new((0..cfg.seeds).rev().map(|s| (s, vec![], 0)).collect());
    let cv = Condvar::new();
    let busy = AtomicUsize::new(0);
    let execs = AtomicU64::new(0);
    let bad = AtomicU64::new(0);
    let abandoned = AtomicU64::new(0);
    let outcomes: Mutex<std::collections::HashSet<u64>> = Default::default();
    let t = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    // what every worker is at, and since when: an execution that does not end is a verdict too
    let at: Vec<Mutex<Option<(std::time::Instant, u32, Vec<u32>)>>> = (0..t).map(|_| Mutex::new(None)).collect();
    let left = AtomicUsize::new(t);
    std::thread::scope(|s| {
        s.spawn(|| {
            while left.load(SeqCst) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(if execs.load(Relaxed) < 50_000 { 5 } else { 200 }));
                for a in &at {
                    let stuck = match &*a.lock().unwrap() {
                        Some((t, seed, p)) if t.elapsed().as_secs() >= HANG_S => Some((*seed, p.clone())),
                        _ => None,
                    };
                    if let Some((seed, p)) = stuck {
                        ctx.not_exhaustive();
                        ctx.violation(
                            "hang/hang",
                            || format!("the code under test never returns\n  scenario {name}"),
                            || format!("{name} {seed} {}", enc(&p)),
                        );
                        std::process::exit(ctx.finish());
                    }
                }
            }
        });
        for k in 0..t {
            let (at, left, q, cv, busy, execs, bad, abandoned, outcomes) =
                (&at, &left, &q, &cv, &busy, &execs, &bad, &abandoned, &outcomes);
            s.spawn(move || {
                struct Leave<'a>(&'a AtomicUsize);
                impl Drop for Leave<'_> {
                    fn drop(&mut self) {
                        self.0.fetch_sub(1, SeqCst);
                    }
                }
                let _leave = Leave(left);
                loop {
                    let job = {
                        let mut g = q.lock().unwrap();
                        loop {
                            if let Some(j) = g.pop() {
                                busy.fetch_add(1, SeqCst);
                                break Some(j);
                            }
                            if busy.load(SeqCst) == 0 {
                                cv.notify_all();
                                break None;
                            }
                            g = cv.wait(g).unwrap();
                        }
                    };
                    let Some((seed, prefix, devs)) = job else { return };
                    let stop = ctx.out_of_time() || bad.load(Relaxed) > 40;
                    if !stop {
                        *at[k].lock().unwrap() = Some((std::time::Instant::now(), seed, prefix.clone()));
                        let d = execute(cfg, seed, &prefix, f);
                        *at[k].lock().unwrap() = None;
                        execs.fetch_add(1, Relaxed);
                        ctx.tc(1);
                        ctx.st(d.points.len() as u64 + 1);
                        ctx.tr(d.polls);
                        if d.diverged {
                            eprintln!("replay of a prefix diverged in {name}: {:?}", prefix);
                            std::process::exit(4);
                        }
                        let h = fnv(d.obs.join("\n").as_bytes());
                        outcomes.lock().unwrap().insert(h);
                        if ctx.wants_sample() {
                            ctx.sample(|| format!("{name}: {} | {}", d.trace.join("; "), d.obs.join(" / ")));
                        }
                        if d.fails.is_empty() && d.obs.iter().any(|o| o.starts_with("(left to another check")) {
                            abandoned.fetch_add(1, Relaxed);
                        }
                        if !d.fails.is_empty() {
                            if d.fails.iter().any(|f| !ctx.is_known(&f.0)) {
                                bad.fetch_add(1, Relaxed);
                            }
                            let ch: Vec<u32> = d.points.iter().map(|p| p.chosen).collect();
                            let again = execute(cfg, seed, &ch, f);
                            if again.obs != d.obs || again.fails != d.fails {
                                eprintln!(
                                    "not reproducible in {name}: {:?} vs {:?}\n{:?}\n{:?}",
                                    d.fails, again.fails, d.obs, again.obs
                                );
                                std::process::exit(4);
                            }
                            for (k, m) in &d.fails {
                                ctx.violation(
                                    k,
                                    || {
                                        format!(
                                            "{m}\n  scenario {name}, schedule: {}\n  history: {}",
                                            if d.trace.is_empty() { "default".into() } else { d.trace.join("; ") },
                                            d.obs.join("\n    ")
                                        )
                                    },
                                    || format!("{name} {seed} {}", enc(&ch)),
                                );
                            }
                        }
                        let mut new = vec![];
                        let mut dv = devs;
                        let _ = &mut dv;
                        for i in prefix.len()..d.points.len() {
                            let p = d.points[i];
                            if devs + p.cost > cfg.bound {
                                continue;
                            }
                            for alt in 1..p.n {
                                let mut x: Vec<u32> = d.points[..i].iter().map(|p| p.chosen).collect();
                                x.push(alt);
                                new.push((seed, x, devs + p.cost));
                            }
                        }
                        new.reverse();
                        if !new.is_empty() {
                            q.lock().unwrap().extend(new);
                        }
                    } else {
                        q.lock().unwrap().clear();
                        if bad.load(Relaxed) > 40 {
                            ctx.not_exhaustive();
                        }
                    }
                    busy.fetch_sub(1, SeqCst);
                    cv.notify_all();
                }
            });
        }
    });
    let st = Stats { execs: execs.load(Relaxed), outcomes: outcomes.lock().unwrap().len() as u64 };
    ctx.count(&format!("executions {name}"), st.execs);
    ctx.count(&format!("outcomes {name}"), st.outcomes);
    let a = abandoned.load(Relaxed);
    if a > 0 {
        ctx.count(&format!("abandoned {name} (another check's business)"), a);
        println!("note: {name}: {a} executions ended early on what another check judges");
    }
    st
}

/// Run-length encoding of a choice list.
pub fn enc(c: &[u32]) -> String {
    let mut v = vec![];
    let mut z = 0;
    let last = c.iter().rposition(|x| *x != 0).map(|i| i + 1).unwrap_or(0);
    for x in &c[..last] {
        if *x == 0 {
            z += 1
        } else {
            if z > 0 {
                v.push(format!("z{z}"))
            }
            z = 0;
            v.push(x.to_string())
        }
    }
    if v.is_empty() { "-".into() } else { v.join(",") }
}
pub fn dec(s: &str) -> Vec<u32> {
    if s == "-" {
        return vec![];
    }
    s.split(',')
        .flat_map(|t| match t.strip_prefix('z') {
            Some(n) => vec![0; n.parse().unwrap()],
            None => vec![t.parse().unwrap()],
        })
        .collect()
}
/// Runs `f` with "randomness" that is a function of `seed` (keys made outside executions).
pub fn with_rand<R>(seed: u64, f: impl FnOnce() -> R) -> R {
    let old = (RAND.get(), RAND_ON.get());
    RAND.set(0xd1b54a32d192ed03u64.wrapping_mul(seed + 1));
    RAND_ON.set(true);
    let r = f();
    RAND.set(old.0);
    RAND_ON.set(old.1);
    r
}
