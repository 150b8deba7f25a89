//! Shared plumbing of the checks: arguments, violations, known findings, evidence, replay files.
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::Instant;

pub struct Violation {
    pub key: String,
    pub desc: String,
    pub case: String,
    pub count: u64,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub level: &'static str,
    start: Instant,
    verif: PathBuf,
    /// (key, description)
    known: Vec<(String, String)>,
    violations: Mutex<BTreeMap<String, Violation>>,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub extra: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    pub rule: Mutex<String>,
    assumptions: Mutex<Vec<String>>,
    exhaustive: Mutex<bool>,
    deadline: Option<Instant>,
    /// the only case to run
    pub replay: Option<String>,
}

impl Ctx {
    pub fn new(id: &str, tier: &str, seed: u64, verif: PathBuf) -> Self {
        let known = std::fs::read_to_string(verif.join("known_findings.txt")).unwrap_or_default();
        let known = known
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: ")?;
                let rest = l.strip_prefix(&format!("property={id} key="))?;
                let (k, d) = rest.split_once(" :: ")?;
                Some((k.trim().to_string(), d.to_string()))
            })
            .collect();
        let budget: u64 = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 780 } else { 0 });
        Ctx {
            id: id.into(),
            thorough: tier == "thorough",
            seed,
            level: "model_checking",
            start: Instant::now(),
            verif,
            known,
            violations: Default::default(),
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            extra: Default::default(),
            samples: Default::default(),
            rule: Default::default(),
            assumptions: Default::default(),
            exhaustive: Mutex::new(true),
            replay: None,
            deadline: (budget > 0).then(|| Instant::now() + std::time::Duration::from_secs(budget)),
        }
    }
    pub fn tier(&self) -> &'static str {
        if self.thorough { "thorough" } else { "quick" }
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
    /// true once the (optional) wall-clock budget is used up; marks the run non-exhaustive
    pub fn out_of_time(&self) -> bool {
        match self.deadline {
            Some(d) if Instant::now() > d => {
                *self.exhaustive.lock().unwrap() = false;
                true
            }
            _ => false,
        }
    }
    pub fn not_exhaustive(&self) {
        *self.exhaustive.lock().unwrap() = false;
    }
    pub fn violation(&self, key: &str, desc: impl FnOnce() -> String, case: impl FnOnce() -> String) {
        let mut v = self.violations.lock().unwrap();
        if let Some(x) = v.get_mut(key) {
            x.count += 1;
            return;
        }
        if v.len() < 200 {
            let x = Violation { key: key.into(), desc: desc(), case: case(), count: 1 };
            if std::env::var("MC_VERBOSE").is_ok() {
                eprintln!("!! {} {}\n   case {}", x.key, x.desc, x.case);
            }
            v.insert(key.into(), x);
        }
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|(k, _)| k == key)
    }
    pub fn unlisted(&self) -> usize {
        self.violations.lock().unwrap().keys().filter(|k| !self.known.iter().any(|(n, _)| n == *k)).count()
    }
    pub fn st(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn tr(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn tc(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.extra.lock().unwrap().entry(k.into()).or_default() += n;
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            let mut s = s();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1
                }
                s.truncate(n);
            }
            v.push(s)
        }
    }
    pub fn wants_sample(&self) -> bool {
        self.samples.lock().unwrap().len() < 6
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.into();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    /// Writes evidence, prints verdict lines and returns the process exit code.
    pub fn finish(&self) -> i32 {
        let v = self.violations.lock().unwrap();
        let mut code = 0;
        let mut unlisted = 0;
        for x in v.values() {
            if let Some((_, d)) = self.known.iter().find(|(k, _)| *k == x.key) {
                println!("KNOWN-FINDING: property={} {} [{}; seen {} times]", self.id, d, x.key, x.count);
                continue;
            }
            unlisted += 1;
            code = 1;
            if unlisted > 5 {
                continue;
            }
            let dir = self.verif.join("replay");
            let _ = std::fs::create_dir_all(&dir);
            if self.replay.is_some() {
                println!("  [{}] {}", x.key, x.desc);
                continue;
            }
            let h = fnv(x.key.as_bytes());
            let path = dir.join(format!("{}-{:08x}.txt", self.id, h as u32));
            let _ = std::fs::write(
                &path,
                format!("property={}\nkey={}\ntier={}\ncase={}\n# {}\n", self.id, x.key, self.tier(), x.case, x.desc.replace('\n', "\n# ")),
            );
            println!("  [{}] {} (seen {} times)\n  case: {}", x.key, x.desc, x.count, clip(&x.case, 600));
            println!("VIOLATION property={} replay={}", self.id, path.display());
        }
        for (k, d) in &self.known {
            if !v.contains_key(k) {
                println!("note: listed finding not observed in this run: property={} {} [{}]", self.id, d, k);
            }
        }
        let mut cov = String::new();
        let s = self.samples.lock().unwrap();
        cov.push_str(&format!(
            "\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{}",
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            *self.exhaustive.lock().unwrap()
        ));
        cov.push_str(&format!(",\"rule\":{}", jstr(&self.rule.lock().unwrap())));
        for (k, n) in self.extra.lock().unwrap().iter() {
            cov.push_str(&format!(",{}:{}", jstr(k), n));
        }
        cov.push_str(",\"samples\":[");
        cov.push_str(&s.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
        cov.push(']');
        let ev = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
            jstr(&self.id),
            jstr(self.tier()),
            self.seed,
            jstr(self.level),
            cov,
            self.assumptions.lock().unwrap().iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","),
            self.elapsed(),
            unlisted
        );
        if self.replay.is_some() {
            println!("replay of {}: {} violation(s)", self.id, unlisted);
            return code;
        }
        let dir = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), ev).expect("write evidence");
        println!(
            "{} {} states={} transitions={} traces={} violations={} wall={:.1}s",
            self.id,
            self.tier(),
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            unlisted,
            self.elapsed()
        );
        code
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3))
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.into();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1
    }
    format!("{}…", &s[..k])
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn hex_into(b: &[u8], s: &mut String) {
    const D: &[u8; 16] = b"0123456789abcdef";
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hexclip(b: &[u8]) -> String {
    if b.len() <= 64 { hex(b) } else { format!("{}..({} bytes)", hex(&b[..64]), b.len()) }
}

/// Replay file -> (property, case)
pub fn read_replay(path: &str) -> (String, String) {
    let t = std::fs::read_to_string(path).expect("replay file");
    let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
    (g("property="), g("case="))
}

/// Seconds (normally a case takes microseconds) after which the code under test counts as hanging.
pub const HANG_S: u64 = 40;
type Slot = std::sync::Arc<Mutex<(Option<Instant>, String)>>;
thread_local! {
    static SLOT: std::cell::RefCell<Option<Slot>> = const { std::cell::RefCell::new(None) };
}
/// What this thread has the code under test do from now on.
pub fn at(what: impl FnOnce(&mut String)) {
    SLOT.with_borrow(|s| {
        if let Some(s) = s {
            let mut s = s.lock().unwrap();
            s.1.clear();
            what(&mut s.1);
            s.0 = Some(Instant::now());
        }
    })
}

/// Run `f(i)` for every i in 0..n on all cores (each index exactly once). A case named by [`at`] that
/// does not end is a violation.
pub fn par(ctx: &Ctx, n: usize, f: impl Fn(usize) + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let t = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let slots: Vec<Slot> = (0..t).map(|_| Default::default()).collect();
    let done = (Mutex::new(0), std::sync::Condvar::new());
    std::thread::scope(|s| {
        for k in 0..t {
            let (slots, next, f, done) = (&slots, &next, &f, &done);
            s.spawn(move || {
                SLOT.set(Some(slots[k].clone()));
                loop {
                    let i = next.fetch_add(1, Relaxed);
                    if i >= n {
                        break;
                    }
                    f(i)
                }
                slots[k].lock().unwrap().0 = None;
                *done.0.lock().unwrap() += 1;
                done.1.notify_all();
            });
        }
        let mut g = done.0.lock().unwrap();
        while *g < t {
            g = done.1.wait_timeout(g, std::time::Duration::from_secs(1)).unwrap().0;
            for x in &slots {
                let x = x.lock().unwrap();
                if x.0.is_some_and(|t| t.elapsed().as_secs() >= HANG_S) {
                    ctx.not_exhaustive();
                    ctx.violation("hang", || format!("the code under test never returns: {}", clip(&x.1, 300)), || x.1.clone());
                    std::process::exit(ctx.finish());
                }
            }
        }
    });
}

/// Memory held by this thread, and the most it has held since [`mem_mark`].
pub mod mem {
    use std::cell::Cell;
    thread_local! {
        static LIVE: Cell<i64> = const { Cell::new(0) };
        static PEAK: Cell<i64> = const { Cell::new(0) };
    }
    /// A thread that holds more than this is running away; it is kept from taking the machine with it,
    /// and reported because it does not return.
    const MOST: i64 = 1500 << 20;
    pub fn change(n: i64) {
        let v = LIVE.get() + n;
        LIVE.set(v);
        if v > PEAK.get() {
            PEAK.set(v);
            while v > MOST {
                std::thread::sleep(std::time::Duration::from_secs(1));
            }
        }
    }
    pub fn mark() -> i64 {
        PEAK.set(LIVE.get());
        LIVE.get()
    }
    /// most bytes held at any one time since the mark
    pub fn since(mark: i64) -> i64 {
        PEAK.get() - mark
    }
    pub struct Watched;
    unsafe impl std::alloc::GlobalAlloc for Watched {
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            change(l.size() as i64);
            unsafe { std::alloc::System.alloc(l) }
        }
        unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
            change(l.size() as i64);
            unsafe { std::alloc::System.alloc_zeroed(l) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            change(-(l.size() as i64));
            unsafe { std::alloc::System.dealloc(p, l) }
        }
        unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
            change(n as i64 - l.size() as i64);
            unsafe { std::alloc::System.realloc(p, l, n) }
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
/// Panics of the code under test are recorded, not printed.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("MC_PANIC").is_ok() {
            eprintln!("panic {m} at {at}\n{}", std::backtrace::Backtrace::force_capture());
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(format!("{m} at {at}")));
    }));
}
pub fn take_panic() -> Option<String> {
    LAST_PANIC.with(|l| l.borrow_mut().take())
}
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    take_panic();
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| take_panic().unwrap_or_else(|| "panic".into()))
}

pub struct Args {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub verif: PathBuf,
    pub replay: Option<String>,
}
pub fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    if a.len() >= 3 && a[1] == "replay" {
        let (id, _) = read_replay(&a[2]);
        let t = std::fs::read_to_string(&a[2]).expect("replay file");
        let tier = if t.lines().any(|l| l == "tier=thorough") { "thorough" } else { "quick" };
        return Args { id, tier: tier.into(), seed, verif, replay: Some(a[2].clone()) };
    }
    if a.len() < 2 {
        eprintln!("usage: {} <ID> [quick|thorough] | replay FILE", a[0]);
        std::process::exit(2)
    }
    let tier = a.get(2).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    Args { id: a[1].clone(), tier, seed, verif, replay: None }
}
