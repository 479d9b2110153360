//! Runs cases, keeps the three verdicts apart, counts what was observed, and
//! supervises the process under test.
use {
    crate::rng::Rng,
    serde_json::{json, Value as J},
    std::{
        cell::{Cell, RefCell},
        collections::{BTreeMap, HashSet},
        future::Future,
        hash::{Hash, Hasher},
        io::Write,
        os::unix::{fs::FileExt, process::ExitStatusExt},
        panic::{catch_unwind, AssertUnwindSafe},
        path::{Path, PathBuf},
        pin::Pin,
        sync::{
            atomic::{AtomicBool, AtomicU64, Ordering},
            Mutex,
        },
        task::{Context, Poll},
        time::{Duration, Instant},
    },
};

#[derive(Debug, Clone)]
pub enum Fail {
    /// the property is broken; `sig` identifies the kind of failure
    Violation { sig: String, msg: String },
    Inconclusive(String),
}

pub type CaseResult = Result<(), Fail>;

pub fn violation<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Violation { sig: sig.into(), msg: msg.into() })
}

pub fn inconclusive<T>(msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail::Inconclusive(msg.into()))
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::runner::Fail::Violation { sig: ($sig).into(), msg: format!($($arg)*) });
        }
    };
}

/// Shortens long debug output (and does not format what is cut off).
pub fn brief(s: impl std::fmt::Debug) -> String {
    struct Head(String, usize);
    impl std::fmt::Write for Head {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for c in s.chars() {
                if self.1 == 0 {
                    return Err(std::fmt::Error);
                }
                self.1 -= 1;
                self.0.push(c);
            }
            Ok(())
        }
    }
    let mut h = Head(String::new(), 420);
    let cut = std::fmt::Write::write_fmt(&mut h, format_args!("{s:?}")).is_err();
    if cut {
        h.0.push_str(" …");
    }
    h.0
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub replay: bool,
    pub trace: Vec<String>,
    obs: BTreeMap<String, u64>,
    hash: std::collections::hash_map::DefaultHasher,
    pub trivial: bool,
    sample: Option<String>,
}

impl Case {
    fn new(seed: u64, gid: u64, idx: u64, thorough: bool, replay: bool) -> Self {
        Self {
            rng: Rng::new(&[seed, gid, idx]),
            idx,
            seed,
            thorough,
            replay,
            trace: vec![],
            obs: BTreeMap::new(),
            hash: Default::default(),
            trivial: false,
            sample: None,
        }
    }

    /// Notes a step for the replay file.
    pub fn note(&mut self, s: impl Into<String>) {
        if self.trace.len() < 400 {
            let s = s.into();
            if self.replay {
                eprintln!("  {s}");
            }
            self.trace.push(s);
        }
    }

    pub fn count(&mut self, what: &str, n: u64) {
        if n > 0 {
            *self.obs.entry(what.to_string()).or_insert(0) += n;
        }
    }

    /// Identity of the case for the distinct count.
    pub fn feed(&mut self, h: &impl Hash) {
        h.hash(&mut self.hash);
    }

    pub fn sample(&mut self, s: impl Into<String>) {
        self.sample = Some(s.into());
    }
}

// ---------------------------------------------------------------- futures

pub enum Ran<T> {
    Done(T),
    /// nothing can make progress any more (the virtual deadline passed)
    Stuck,
    /// polled more often than any correct run needs
    Spins,
}

impl<T> Ran<T> {
    pub fn done(self, what: &str) -> Result<T, Fail> {
        match self {
            Ran::Done(x) => Ok(x),
            Ran::Stuck => violation("stuck", format!("{what}: never finishes (no timer, no wake-up pending)")),
            Ran::Spins => violation("spins", format!("{what}: polled without end")),
        }
    }
}

struct Limited<F> {
    f: Pin<Box<F>>,
    left: u64,
}

impl<F: Future> Future for Limited<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.left == 0 {
            return Poll::Ready(None);
        }
        self.left -= 1;
        self.f.as_mut().poll(cx).map(Some)
    }
}

pub fn runtime() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime")
}

/// Runs a future on a paused clock. The virtual deadline is far beyond every timeout used.
pub fn run<F: Future>(f: F) -> Ran<F::Output> {
    run_limit(f, 50_000_000)
}

pub fn run_limit<F: Future>(f: F, polls: u64) -> Ran<F::Output> {
    let rt = runtime();
    rt.block_on(async move {
        let lim = Limited { f: Box::pin(f), left: polls };
        match tokio::time::timeout(Duration::from_secs(30 * 24 * 3600), lim).await {
            Ok(Some(x)) => Ran::Done(x),
            Ok(None) => Ran::Spins,
            Err(_) => Ran::Stuck,
        }
    })
}

// ---------------------------------------------------------------- panics

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if msg.starts_with("unsafe precondition(s) violated") {
            // the process is about to be aborted
            eprintln!("{loc}: {msg}");
        }
        if IN_CASE.with(|c| c.get()) {
            LAST_PANIC.with(|p| {
                let mut p = p.borrow_mut();
                // keep the first one; a later one is a consequence
                if p.is_none() {
                    *p = Some((loc, msg));
                }
            });
        } else {
            eprintln!("panic at {loc}: {msg}");
        }
    }));
}

/// A panic located in the harness's own files is an error of the harness; files that hold
/// nothing but derives of the code under test count as the code under test.
fn panic_is_ours(loc: &str) -> bool {
    loc.starts_with("src/") && !loc.starts_with("src/models")
}

/// Runs `f`; a panic becomes `Err((location, message))`. For checks that decide on panics themselves.
pub fn catching<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    let was = IN_CASE.with(|c| c.replace(true));
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

// ---------------------------------------------------------------- allocation counting

pub mod alloc {
    use std::{
        alloc::{GlobalAlloc, Layout, System},
        cell::Cell,
    };

    pub struct Counting;

    thread_local! {
        static CUR: Cell<isize> = const { Cell::new(0) };
        static PEAK: Cell<isize> = const { Cell::new(0) };
        static BIGGEST: Cell<usize> = const { Cell::new(0) };
        static COUNT: Cell<u64> = const { Cell::new(0) };
    }

    fn add(n: usize) {
        let _ = CUR.try_with(|c| {
            let v = c.get() + n as isize;
            c.set(v);
            let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        });
        let _ = BIGGEST.try_with(|b| b.set(b.get().max(n)));
        let _ = COUNT.try_with(|b| b.set(b.get() + 1));
    }

    fn sub(n: usize) {
        let _ = CUR.try_with(|c| c.set(c.get() - n as isize));
    }

    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            add(l.size());
            System.alloc(l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            add(l.size());
            System.alloc_zeroed(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            sub(l.size());
            System.dealloc(p, l)
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            sub(l.size());
            add(n);
            System.realloc(p, l, n)
        }
    }

    pub fn reset() {
        CUR.with(|c| c.set(0));
        PEAK.with(|c| c.set(0));
        BIGGEST.with(|c| c.set(0));
        COUNT.with(|c| c.set(0));
    }

    /// (peak bytes, biggest single request, requests) of this thread since `reset`.
    pub fn stats() -> (usize, usize, u64) {
        (PEAK.with(|c| c.get()).max(0) as usize, BIGGEST.with(|c| c.get()), COUNT.with(|c| c.get()))
    }

    /// Net bytes of this thread since `reset`.
    pub fn live() -> isize {
        CUR.with(|c| c.get())
    }
}

#[cfg(not(any(miri, feature = "plainalloc")))]
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

// ---------------------------------------------------------------- the check

type CaseFn = Box<dyn Fn(&mut Case) -> CaseResult + Sync + Send>;

struct Group {
    name: &'static str,
    quick: u64,
    thorough: u64,
    threads: usize,
    run: CaseFn,
}

pub struct Check {
    id: &'static str,
    rule: String,
    level: &'static str,
    groups: Vec<Group>,
    require: Vec<(String, u64)>,
    assumptions: Vec<String>,
    limits: bool,
    scale: u64,
}

struct Found {
    sig: String,
    msg: String,
    group: String,
    idx: u64,
    trace: Vec<String>,
}

#[derive(Default)]
struct Totals {
    evals: u64,
    distinct: HashSet<u64>,
    obs: BTreeMap<String, u64>,
    samples: Vec<String>,
    found: Vec<Found>,
    errors: Vec<String>,
    per_group: BTreeMap<String, u64>,
}

fn root() -> PathBuf {
    PathBuf::from(std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

const THREADS: usize = 8;
const SLOT: u64 = 128;

impl Check {
    pub fn new(id: &'static str, rule: &str) -> Self {
        Self {
            id,
            rule: rule.into(),
            level: "exploration",
            groups: vec![],
            require: vec![],
            assumptions: vec![],
            limits: true,
            scale: 1,
        }
    }

    pub fn level(mut self, l: &'static str) -> Self {
        self.level = l;
        self
    }

    /// For a check whose cases are other programs, with limits of their own.
    pub fn unlimited(mut self) -> Self {
        self.limits = false;
        self
    }

    /// Multiplies the quick sizes of all groups that are not exhaustive, where a check runs alone.
    pub fn scale(mut self, n: u64) -> Self {
        self.scale = n;
        self
    }

    pub fn assume(mut self, s: &str) -> Self {
        self.assumptions.push(s.into());
        self
    }

    pub fn group(
        mut self,
        name: &'static str,
        quick: u64,
        thorough: u64,
        run: impl Fn(&mut Case) -> CaseResult + Sync + Send + 'static,
    ) -> Self {
        self.groups.push(Group { name, quick, thorough, threads: THREADS, run: Box::new(run) });
        self
    }

    /// A group whose cases use threads or much memory themselves.
    pub fn group_on(
        mut self,
        threads: usize,
        name: &'static str,
        quick: u64,
        thorough: u64,
        run: impl Fn(&mut Case) -> CaseResult + Sync + Send + 'static,
    ) -> Self {
        self.groups.push(Group { name, quick, thorough, threads, run: Box::new(run) });
        self
    }

    /// The run is inconclusive unless this much was observed (scaled to the quick tier).
    pub fn require(mut self, what: &str, n: u64) -> Self {
        self.require.push((what.into(), n));
        self
    }

    pub fn main(self) -> ! {
        let args: Vec<String> = std::env::args().collect();
        if let Some(i) = args.iter().position(|a| a == "--replay") {
            let spec = args.get(i + 1).cloned().unwrap_or_default();
            std::process::exit(self.replay(&spec));
        }
        if let Ok(dir) = std::env::var("VH_CHILD") {
            std::process::exit(self.child(Path::new(&dir)));
        }
        std::process::exit(self.parent());
    }

    fn one(&self, g: &Group, gid: u64, idx: u64, replay: bool) -> (Case, Option<Fail>) {
        let mut case = Case::new(seed(), gid, idx, thorough(), replay);
        LAST_PANIC.with(|p| *p.borrow_mut() = None);
        IN_CASE.with(|c| c.set(true));
        let r = catch_unwind(AssertUnwindSafe(|| (g.run)(&mut case)));
        IN_CASE.with(|c| c.set(false));
        let fail = match r {
            Ok(Ok(())) => None,
            Ok(Err(f)) => Some(f),
            Err(_) => {
                let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                if panic_is_ours(&loc) {
                    Some(Fail::Inconclusive(format!("harness panic at {loc}: {msg}")))
                } else {
                    Some(Fail::Violation { sig: format!("panic {}", loc_file(&loc)), msg: format!("panic at {loc}: {msg}") })
                }
            }
        };
        (case, fail)
    }

    fn gid(name: &str) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for b in name.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h
    }

    fn replay(&self, spec: &str) -> i32 {
        install_hook();
        // group:index or group:first-last
        let mut it = spec.split(':');
        let name = it.next().unwrap_or("");
        let range = it.next().and_then(|x| match x.split_once('-') {
            Some((a, b)) => Some((a.parse().ok()?, b.parse().ok()?)),
            None => x.parse().ok().map(|i| (i, i)),
        });
        let Some((first, last)) = range else {
            eprintln!("--replay group:index");
            return 2;
        };
        let Some(g) = self.groups.iter().find(|g| g.name == name) else {
            eprintln!("no group {name}");
            return 2;
        };
        let ms: u128 = std::env::var("VH_REPLAY_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(u128::MAX);
        let began = Instant::now();
        let mut rc = 0;
        for idx in first..=last {
            if began.elapsed().as_millis() > ms {
                break;
            }
            let (case, fail) = self.one(g, Self::gid(g.name), idx, first == last);
            if first == last {
                println!("{fail:#?}");
            } else {
                println!("case {idx} observed {}", case.obs.values().sum::<u64>());
            }
            rc = rc.max(match fail {
                Some(Fail::Violation { .. }) => 1,
                Some(_) => 2,
                None => 0,
            });
        }
        rc
    }

    fn child(&self, dir: &Path) -> i32 {
        install_hook();
        if self.limits {
            unsafe {
                // sanitizers reserve far more address space than they use
                if !cfg!(feature = "plainalloc") {
                    let l = libc::rlimit { rlim_cur: 26 << 30, rlim_max: 26 << 30 };
                    libc::setrlimit(libc::RLIMIT_AS, &l);
                }
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                if std::env::var("VH_ONLY").is_ok() {
                    let l = libc::rlimit { rlim_cur: 60, rlim_max: 65 };
                    libc::setrlimit(libc::RLIMIT_CPU, &l);
                }
            }
        }
        let slots = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(dir.join("slots")).expect("slots");
        let only = std::env::var("VH_ONLY").ok();
        let total = Mutex::new(Totals::default());
        let th = thorough();
        let began = Instant::now();
        // a share of every group only (for C30, which runs the other checks under sanitizers)
        let whole = std::env::var_os("VH_SHARE").is_none();
        let share: u64 = std::env::var("VH_SHARE").ok().and_then(|s| s.parse().ok()).unwrap_or(1000);
        let group_ms: u128 = std::env::var("VH_GROUP_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(u128::MAX);
        let skip = std::env::var("VH_SKIP").unwrap_or_default();
        for g in &self.groups {
            if skip == g.name {
                continue;
            }
            let n = if th { g.thorough } else { g.quick };
            let n = if whole && !th && g.quick < g.thorough { (n * self.scale).min(g.thorough) } else { n };
            let n = (n * share / 1000).max(n.min(8));
            let g_began = Instant::now();
            let gid = Self::gid(g.name);
            let next = AtomicU64::new(0);
            let stop = AtomicBool::new(false);
            let work = |t: usize, from: Option<u64>| {
                let mut local = Totals::default();
                loop {
                    let idx = match from {
                        Some(i) => i,
                        None => {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n || stop.load(Ordering::Relaxed) || g_began.elapsed().as_millis() > group_ms {
                                break;
                            }
                            i
                        }
                    };
                    let line = format!("{:<127}\n", format!("{} {} {}", g.name, idx, began.elapsed().as_millis()));
                    let _ = slots.write_at(line.as_bytes(), t as u64 * SLOT);
                    let (case, fail) = self.one(g, gid, idx, false);
                    local.evals += 1;
                    *local.per_group.entry(g.name.into()).or_insert(0) += 1;
                    if !case.trivial {
                        let mut h = case.hash;
                        gid.hash(&mut h);
                        local.distinct.insert(h.finish());
                    }
                    for (k, v) in case.obs {
                        *local.obs.entry(k).or_insert(0) += v;
                    }
                    if let Some(s) = case.sample {
                        if idx < 2 {
                            local.samples.push(format!("{}:{idx}: {}", g.name, brief_str(&s)));
                        }
                    }
                    match fail {
                        None => {}
                        Some(Fail::Violation { sig, msg }) => {
                            if local.found.len() < 60 {
                                local.found.push(Found { sig, msg, group: g.name.into(), idx, trace: case.trace });
                            }
                        }
                        Some(Fail::Inconclusive(m)) => {
                            local.errors.push(format!("{}:{idx}: {m}", g.name));
                            if local.errors.len() > 20 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    if from.is_some() {
                        break;
                    }
                }
                let _ = slots.write_at(format!("{:<127}\n", "idle").as_bytes(), t as u64 * SLOT);
                let mut tt = total.lock().unwrap();
                tt.evals += local.evals;
                tt.distinct.extend(local.distinct);
                for (k, v) in local.obs {
                    *tt.obs.entry(k).or_insert(0) += v;
                }
                for (k, v) in local.per_group {
                    *tt.per_group.entry(k).or_insert(0) += v;
                }
                tt.samples.extend(local.samples);
                tt.found.extend(local.found);
                tt.errors.extend(local.errors);
            };
            if let Some(o) = &only {
                let mut it = o.split(':');
                if it.next() == Some(g.name) {
                    let idx = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    work(0, Some(idx));
                }
                continue;
            }
            if g.threads <= 1 {
                work(0, None);
            } else {
                std::thread::scope(|s| {
                    for t in 0..g.threads {
                        let work = &work;
                        std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, move || work(t, None)).expect("thread");
                    }
                });
            }
        }
        let mut t = total.into_inner().unwrap();
        t.found.sort_by(|a, b| (&a.group, a.idx).cmp(&(&b.group, b.idx)));
        t.samples.sort();
        let out = json!({
            "evals": t.evals,
            "distinct": t.distinct.len(),
            "obs": t.obs,
            "groups": t.per_group,
            "samples": t.samples,
            "errors": t.errors,
            "found": t.found.iter().map(|f| json!({"sig": f.sig, "msg": f.msg, "group": f.group, "idx": f.idx, "trace": f.trace})).collect::<Vec<_>>(),
        });
        let tmp = dir.join("result.tmp");
        if std::fs::write(&tmp, serde_json::to_vec(&out).unwrap()).is_err() || std::fs::rename(&tmp, dir.join("result.json")).is_err() {
            return 2;
        }
        0
    }

    fn spawn(&self, dir: &Path, only: Option<&str>) -> std::io::Result<std::process::Child> {
        let err = std::fs::File::create(dir.join("stderr"))?;
        let mut c = std::process::Command::new(std::env::current_exe()?);
        c.args(std::env::args_os().skip(1)).env("VH_CHILD", dir).stdout(std::process::Stdio::null()).stderr(err).stdin(std::process::Stdio::null());
        if let Some(o) = only {
            c.env("VH_ONLY", o);
        }
        c.spawn()
    }

    fn slots(dir: &Path) -> Vec<(String, u64)> {
        let s = std::fs::read_to_string(dir.join("slots")).unwrap_or_default();
        s.lines()
            .filter_map(|l| {
                let mut it = l.split_whitespace();
                let g = it.next()?;
                let i = it.next()?;
                let t = it.next()?.parse().ok()?;
                Some((format!("{g}:{i}"), t))
            })
            .collect()
    }

    /// Runs one case alone. Returns how it died, if it did, as a violation message.
    fn alone(&self, dir: &Path, which: &str) -> Option<String> {
        let d = dir.join("alone");
        let _ = std::fs::create_dir_all(&d);
        let mut child = self.spawn(&d, Some(which)).ok()?;
        let t = Instant::now();
        let status = loop {
            match child.try_wait() {
                Ok(Some(s)) => break s,
                Ok(None) if t.elapsed() > Duration::from_secs(150) => {
                    let _ = child.kill();
                    let _ = child.wait();
                    return None;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(20)),
                Err(_) => return None,
            }
        };
        let tail: String = std::fs::read_to_string(d.join("stderr")).unwrap_or_default().lines().rev().take(5).collect::<Vec<_>>().join(" | ");
        match status.signal() {
            Some(libc::SIGXCPU) => Some(format!("case {which} does not terminate (60 s of CPU time)")),
            Some(s @ (libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP)) => {
                Some(format!("case {which} ends the process with signal {s}: {tail}"))
            }
            _ => None,
        }
    }

    fn parent(&self) -> i32 {
        let t0 = Instant::now();
        let base = PathBuf::from(std::env::var("VH_TMP").unwrap_or_else(|_| format!("{}/target/run", root().display())));
        let dir = base.join(format!("{}-{}", self.id, std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        if std::fs::create_dir_all(&dir).is_err() {
            eprintln!("cannot create {}", dir.display());
            return 2;
        }
        let wall: u64 = std::env::var("VH_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough() { 3 * 3600 } else { 500 });
        let mut crash: Option<(String, String)> = None;
        let mut inconclusive: Vec<String> = vec![];
        let mut child = match self.spawn(&dir, None) {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot start: {e}");
                return 2;
            }
        };
        let status = loop {
            match child.try_wait() {
                Ok(Some(s)) => break Some(s),
                Ok(None) => {
                    let el = t0.elapsed();
                    let now = el.as_millis() as u64;
                    let old: Vec<String> =
                        Self::slots(&dir).into_iter().filter(|(_, t)| now.saturating_sub(*t) > if thorough() { 300_000 } else { 100_000 }).map(|(c, _)| c).collect();
                    if !old.is_empty() || el.as_secs() > wall {
                        let _ = child.kill();
                        let _ = child.wait();
                        for c in &old {
                            if let Some(m) = self.alone(&dir, c) {
                                crash = Some((c.clone(), m));
                                break;
                            }
                        }
                        if crash.is_none() {
                            inconclusive.push(format!("stopped after {} s (slow cases: {old:?})", el.as_secs()));
                        }
                        break None;
                    }
                    std::thread::sleep(Duration::from_millis(15));
                }
                Err(e) => {
                    inconclusive.push(format!("wait: {e}"));
                    break None;
                }
            }
        };
        if let Some(s) = status {
            if let Some(sig) = s.signal() {
                let tail: String = std::fs::read_to_string(dir.join("stderr")).unwrap_or_default().lines().rev().take(5).collect::<Vec<_>>().join(" | ");
                let cases = Self::slots(&dir);
                for (c, _) in &cases {
                    if let Some(m) = self.alone(&dir, c) {
                        crash = Some((c.clone(), m));
                        break;
                    }
                }
                if crash.is_none() {
                    match sig {
                        libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE | libc::SIGTRAP => {
                            crash = Some((
                                cases.first().map(|c| c.0.clone()).unwrap_or_default(),
                                format!("the process died with signal {sig} while running {cases:?}: {tail}"),
                            ));
                        }
                        _ => inconclusive.push(format!("killed by signal {sig}: {tail}")),
                    }
                }
            } else if s.code() != Some(0) {
                let tail: String = std::fs::read_to_string(dir.join("stderr")).unwrap_or_default().lines().rev().take(5).collect::<Vec<_>>().join(" | ");
                inconclusive.push(format!("child exited with {s}: {tail}"));
            }
        }
        let res: J = std::fs::read(dir.join("result.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(J::Null);
        if res.is_null() && crash.is_none() && inconclusive.is_empty() {
            inconclusive.push("no result".into());
        }
        let mut found: Vec<(String, String, String, u64, J)> = vec![];
        if let Some((c, m)) = crash {
            let mut it = c.split(':');
            let g = it.next().unwrap_or("").to_string();
            let i = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            found.push(("crash".into(), m, g, i, J::Null));
        }
        for f in res["found"].as_array().into_iter().flatten() {
            found.push((
                f["sig"].as_str().unwrap_or("").into(),
                f["msg"].as_str().unwrap_or("").into(),
                f["group"].as_str().unwrap_or("").into(),
                f["idx"].as_u64().unwrap_or(0),
                f["trace"].clone(),
            ));
        }
        for e in res["errors"].as_array().into_iter().flatten() {
            inconclusive.push(e.as_str().unwrap_or("").into());
        }
        if !res.is_null() {
            for (what, n) in &self.require {
                let got = res["obs"][what].as_u64().unwrap_or(0);
                if got < *n {
                    inconclusive.push(format!("observed only {got} of at least {n} {what}"));
                }
            }
        }
        // known findings
        let known = load_known(self.id);
        let mut known_hits = BTreeMap::new();
        let mut real = vec![];
        for f in found {
            match known.iter().find(|k| k.0 == f.0) {
                Some(k) => *known_hits.entry(k.clone()).or_insert(0u64) += 1,
                None => real.push(f),
            }
        }
        for ((_, desc), _n) in &known_hits {
            println!("KNOWN-FINDING: property={} {desc}", self.id);
        }
        if res["evals"].as_u64().is_some() && real.is_empty() {
            for k in &known {
                if !known_hits.contains_key(k) {
                    println!("note: known finding not seen in this run: {}", k.1);
                }
            }
        }
        let evals = res["evals"].as_u64().unwrap_or(0);
        let replay_dir = root().join("evidence");
        let _ = std::fs::create_dir_all(&replay_dir);
        let mut replay_path = String::new();
        if let Some(f) = real.first() {
            let p = replay_dir.join(format!("replay-{}.txt", self.id));
            let mut s = format!(
                "property {}\nseed {}\ntier {}\nrerun: cd /verif && VERIF_SEED={} VERIF_TIER={} ./run {} --replay {}:{}\n\n",
                self.id,
                seed(),
                tier(),
                seed(),
                tier(),
                self.id,
                f.2,
                f.3
            );
            for f in real.iter().take(20) {
                s += &format!("case {}:{}\n  [{}] {}\n", f.2, f.3, f.0, f.1);
                for l in f.4.as_array().into_iter().flatten() {
                    s += &format!("    {}\n", l.as_str().unwrap_or(""));
                }
            }
            let _ = std::fs::write(&p, s);
            replay_path = p.display().to_string();
        }
        // what other programs of the same check observed
        let mut parts = serde_json::Map::new();
        let mut evals_all = evals;
        let mut distinct_all = res["distinct"].as_u64().unwrap_or(0);
        for p in std::env::var("VH_PARTS").unwrap_or_default().split(':').filter(|p| !p.is_empty()) {
            let v: J = std::fs::read(p).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(J::Null);
            if v.is_null() {
                inconclusive.push(format!("no result of {p}"));
            }
            evals_all += v["coverage"]["evaluations"].as_u64().unwrap_or(0);
            distinct_all += v["coverage"]["distinct_nontrivial"].as_u64().unwrap_or(0);
            let name = Path::new(p).file_stem().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
            parts.insert(name, v["coverage"].clone());
        }
        let ev = json!({
            "property": self.id,
            "tier": tier(),
            "seed": seed(),
            "level": self.level,
            "coverage": {
                "evaluations": evals_all,
                "distinct_nontrivial": distinct_all,
                "rule": self.rule,
                "samples": if res["samples"].as_array().map_or(true, |a| a.is_empty()) { json!(["(no case finished)"]) } else { res["samples"].clone() },
                "observed": res["obs"],
                "parts": parts,
                "cases_per_group": res["groups"],
                "known_findings_seen": known_hits.values().sum::<u64>(),
                "inconclusive": inconclusive,
            },
            "assumptions": self.assumptions,
            "wall_s": (t0.elapsed().as_millis() as f64) / 1000.0,
            "violations": real.len(),
        });
        if std::env::var("VH_EVIDENCE").map(|v| v == "0").unwrap_or(false) {
            println!("{}", serde_json::to_string(&ev).unwrap_or_default());
        } else if let Ok(p) = std::env::var("VH_PART_OUT") {
            let _ = std::fs::write(p, serde_json::to_string_pretty(&ev).unwrap() + "\n");
        } else {
            let _ = std::fs::write(replay_dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n");
        }
        let _ = std::fs::remove_dir_all(&dir);
        let out = std::io::stdout();
        let mut o = out.lock();
        if !real.is_empty() {
            let mut seen = HashSet::new();
            for f in &real {
                if seen.insert(f.0.clone()) && seen.len() <= 12 {
                    let _ = writeln!(o, "{} {}:{} [{}] {}", self.id, f.2, f.3, f.0, brief_str(&f.1));
                }
            }
            let _ = writeln!(o, "VIOLATION property={} replay={}", self.id, replay_path);
            return 1;
        }
        if !inconclusive.is_empty() {
            for m in inconclusive.iter().take(20) {
                let _ = writeln!(o, "{} INCONCLUSIVE {}", self.id, brief_str(m));
            }
            return 2;
        }
        let _ = writeln!(
            o,
            "{} held on {} cases ({} distinct) in {:.1} s; observed {}",
            self.id,
            evals,
            res["distinct"],
            t0.elapsed().as_secs_f64(),
            res["obs"]
        );
        0
    }
}

fn tier() -> &'static str {
    if thorough() {
        "thorough"
    } else {
        "quick"
    }
}

fn brief_str(s: &str) -> String {
    if s.chars().count() > 700 {
        s.chars().take(700).collect::<String>() + "…"
    } else {
        s.into()
    }
}

fn loc_file(loc: &str) -> String {
    loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc).rsplit('/').next().unwrap_or("").to_string()
}

/// `known: property=<id> sig=<signature> | <what fails>`
fn load_known(id: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    for l in std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default().lines() {
        let Some(rest) = l.strip_prefix("known: ") else { continue };
        let Some(rest) = rest.strip_prefix(&format!("property={id} sig=")) else { continue };
        if let Some((sig, desc)) = rest.split_once(" | ") {
            out.push((sig.trim().to_string(), desc.trim().to_string()));
        }
    }
    out
}
