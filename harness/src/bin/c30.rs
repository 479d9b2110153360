//! C30: no undefined behaviour, no data races, nothing leaked.
//!
//! The other checks' workloads run again, in programs built with the address, memory and thread
//! sanitizers and under Miri; only what these tools report is judged here. `checks/C30.sh` builds them.
use {
    mysql_connector::{
        pool::{AsyncPool, AsyncPoolContent, AsyncPoolContentError, AsyncPoolTrait, PoolItem, SyncPool, SyncPoolContent, VecPoolCtx},
        Connection,
    },
    std::{
        cell::Cell,
        future::Future,
        os::unix::process::{CommandExt, ExitStatusExt},
        path::PathBuf,
        pin::Pin,
        process::{Command, Stdio},
        rc::Rc,
        sync::Arc,
        task::{Context, Poll},
        time::{Duration, Instant, SystemTime, UNIX_EPOCH},
    },
    vharness::{kit::*, runner::alloc, script::*, wire::*, *},
};

// ---------------------------------------------------------------- programs under a tool

#[derive(Clone, Copy, Debug, PartialEq)]
enum Tool {
    Address,
    Memory,
    Thread,
    Miri,
}

#[derive(Clone, Debug)]
struct Job {
    check: &'static str,
    /// group and number of cases, for Miri
    cases: Option<(&'static str, u64)>,
}

/// The checks whose workloads are run again. C02's and others' bulk is in the amount, not in the code reached.
const CHECKS: &[&str] = &[
    "small", "c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19",
    "c20", "c21", "c22", "c23", "c24", "c25", "c26", "c27", "c28", "c29",
];

/// Groups that are left out of the quick tier: a single case of theirs takes long.
const BULKY: &[(&str, &str)] = &[("c01", "huge"), ("c09", "max_params"), ("c21", "small"), ("c23", "small"), ("c24", "small")];

/// Groups light enough for an interpreter, with the number of cases that take it some ten seconds.
const LIGHT: &[(&str, &str, u64)] = &[
    ("small", "sync", 5),
    ("small", "async", 5),
    ("small", "sync", 5),
    ("small", "async", 5),
    ("small", "sessions", 1),
    ("small", "shared", 1),
    ("small", "texts", 8),
    ("small", "types", 1),
    ("small", "cuts", 8),
    ("small", "cuts", 8),
    ("c01", "small", 2),
    ("c01", "login", 2),
    ("c03", "wrong", 2),
    ("c04", "leftovers", 1),
    ("c05", "statement", 1),
    ("c06", "values", 1),
    ("c06", "malformed", 1),
    ("c06", "cut", 3),
    ("c07", "values", 1),
    ("c07", "nulls", 2),
    ("c07", "lengths", 1),
    ("c07", "odd_lengths", 3),
    ("c07", "unknown", 4),
    ("c07", "cut", 3),
    ("c08", "small", 1),
    ("c09", "small", 1),
    ("c10", "greeting", 8),
    ("c10", "settings", 2),
    ("c11", "summaries", 1),
    ("c14", "logins", 4),
    ("c15", "commands", 2),
    ("c15", "commands", 2),
    ("c15", "babble", 4),
    ("c15", "boasts", 6),
    ("c17", "history", 4),
    ("c18", "history", 4),
    ("c20", "buffers", 8),
    ("c20", "history", 4),
    ("c21", "into", 8),
    ("c22", "texts", 6),
    ("c23", "random", 4),
    ("c24", "random", 2),
    ("c25", "versions", 6),
    ("c26", "generated", 2),
    ("c27", "insert", 3),
    ("c29", "unconnected", 6),
];

/// Groups that take it minutes; for the thorough tier.
const HEAVY: &[(&str, &str, u64)] = &[
    ("c04", "histories", 1),
    ("c05", "breaks", 2),
    ("c06", "ranges", 2),
    ("c08", "wide_cells", 2),
    ("c10", "login", 2),
    ("c10", "commands", 1),
    ("c12", "logins", 2),
    ("c12", "no_ok", 2),
    ("c13", "demands", 2),
    ("c15", "logins", 3),
    ("c18", "rounds", 2),
    ("c19", "one", 1),
    ("c25", "one", 3),
    ("c25", "simple", 2),
    ("c26", "written", 4),
    ("c27", "whole", 4),
    ("c27", "update", 4),
    ("c28", "tiny", 1),
    ("c28", "parse", 2),
    ("c28", "malformed", 2),
    ("c29", "faults", 2),
    ("c29", "transports", 1),
];

fn bin(t: Tool) -> Option<PathBuf> {
    let name = match t {
        Tool::Address => "C30_ASAN",
        Tool::Memory => "C30_MSAN",
        Tool::Thread => "C30_TSAN",
        Tool::Miri => "C30_MIRI",
    };
    std::env::var(name).ok().filter(|s| !s.is_empty()).map(PathBuf::from)
}

fn seconds_left() -> i64 {
    let deadline: i64 = std::env::var("C30_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(i64::MAX);
    deadline.saturating_sub(SystemTime::now().duration_since(UNIX_EPOCH).map_or(0, |d| d.as_secs() as i64))
}

/// What the tool says went wrong: the kind of failure, and the report's beginning.
enum Said {
    Nothing,
    Report(String, String),
    /// something that is not for this property, like a lack of memory
    Other(String),
    /// the tool itself does not work here
    Broken(String),
}

fn listen(err: &str) -> Said {
    const OTHER: &[&str] = &["stack-overflow", "out-of-memory", "out of memory", "allocation-size-too-big", "calloc-overflow", "failed to allocate"];
    const BROKEN: &[&str] = &[
        "FATAL: ThreadSanitizer",
        "FATAL: MemorySanitizer",
        "Shadow memory range interleaves",
        "LeakSanitizer has encountered a fatal error",
        "error: unsupported operation",
    ];
    const REPORTS: &[(&str, &str)] = &[
        ("ERROR: AddressSanitizer: ", "address"),
        ("ERROR: LeakSanitizer: ", "leak"),
        ("WARNING: MemorySanitizer: ", "memory"),
        ("ERROR: MemorySanitizer: ", "memory"),
        ("WARNING: ThreadSanitizer: ", "thread"),
        ("ERROR: ThreadSanitizer: ", "thread"),
        ("error: Undefined Behavior: ", "miri"),
        ("error: memory leaked", "miri: memory leaked"),
        ("unsafe precondition(s) violated: ", "precondition"),
    ];
    let lines: Vec<&str> = err.lines().collect();
    for (i, l) in lines.iter().enumerate() {
        if BROKEN.iter().any(|b| l.contains(b)) {
            return Said::Broken(l.to_string());
        }
        for (mark, what) in REPORTS {
            if let Some(at) = l.find(mark) {
                if OTHER.iter().any(|o| l.contains(o)) {
                    return Said::Other(l.to_string());
                }
                let kind: String = l[at + mark.len()..].split([' ', '(', ':']).take(2).collect::<Vec<_>>().join(" ");
                let text: String = lines[i..].iter().take(60).map(|l| l.trim_end()).collect::<Vec<_>>().join("\n");
                return Said::Report(format!("{what} {kind}").trim().to_string(), text);
            }
        }
        if l.contains("has overflowed its stack") {
            return Said::Other(l.to_string());
        }
    }
    Said::Nothing
}

struct Outcome {
    err: String,
    signal: Option<i32>,
    late: bool,
    took: f64,
    result: serde_json::Value,
    out: String,
}

fn execute(tool: Tool, job: &Job, first: u64, seed: u64, thorough: bool, leaks: bool, dir: &std::path::Path) -> Result<Outcome, Fail> {
    let Some(program) = bin(tool) else { return inconclusive(format!("no program built for {tool:?}; run ./run C30")) };
    let _ = std::fs::remove_dir_all(dir);
    if let Err(e) = std::fs::create_dir_all(dir) {
        return inconclusive(format!("{}: {e}", dir.display()));
    }
    let file = |n: &str| std::fs::File::create(dir.join(n));
    let (Ok(err), Ok(out)) = (file("err"), file("out")) else { return inconclusive("cannot write into the scratch directory") };
    let mut c;
    if tool == Tool::Miri {
        let Some((group, n)) = job.cases else { return inconclusive("no cases") };
        c = Command::new("cargo");
        c.args(["+nightly", "miri", "run", "--offline", "--quiet", "--features", "plainalloc,models", "--bin", "many", "--manifest-path"])
            .arg(std::env::var("C30_MANIFEST").unwrap_or_default())
            .arg("--target-dir")
            .arg(&program)
            .args(["--", job.check, "--replay", &format!("{group}:{first}-{}", first + n - 1)])
            .env("VH_REPLAY_MS", if thorough { "150000" } else { "12000" })
            .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={}", seed.wrapping_mul(1000) + first));
    } else {
        c = Command::new(&program);
        c.arg(job.check)
            .env("VH_CHILD", dir)
            .env("VERIF_SEED", seed.to_string())
            .env("VH_SKIP", if thorough { "" } else { BULKY.iter().find(|b| b.0 == job.check).map_or("", |b| b.1) })
            .env("VH_SHARE", if thorough { "30" } else { "40" })
            .env("VH_GROUP_MS", if thorough { "15000" } else { "800" })
            .env(
                "ASAN_OPTIONS",
                format!("abort_on_error=0:allocator_may_return_null=1:detect_leaks={}:max_allocation_size_mb=20000", u8::from(leaks)),
            )
            .env("MSAN_OPTIONS", "abort_on_error=0:halt_on_error=1:allocator_may_return_null=1")
            .env("TSAN_OPTIONS", "halt_on_error=0:exitcode=66:report_thread_leaks=0:report_signal_unsafe=0:detect_deadlocks=0:allocator_may_return_null=1");
    }
    c.env_remove("VH_ONLY").env_remove("VH_PARTS").stdin(Stdio::null()).stdout(out).stderr(err).process_group(0);
    if tool == Tool::Miri {
        c.env_remove("VH_CHILD");
    }
    let mut child = match c.spawn() {
        Ok(x) => x,
        Err(e) => return inconclusive(format!("{}: {e}", program.display())),
    };
    let limit = Duration::from_secs(match (thorough, tool) {
        (true, _) => 280,
        (false, Tool::Miri) => 30,
        (false, _) => 80,
    });
    let t = Instant::now();
    let mut late = false;
    let status = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if t.elapsed() > limit => {
                late = true;
                unsafe {
                    libc::kill(-(child.id() as i32), libc::SIGKILL);
                }
                match child.wait() {
                    Ok(s) => break s,
                    Err(e) => return inconclusive(e.to_string()),
                }
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(10)),
            Err(e) => return inconclusive(e.to_string()),
        }
    };
    let read = |n: &str| String::from_utf8_lossy(&std::fs::read(dir.join(n)).unwrap_or_default()).into_owned();
    Ok(Outcome {
        err: read("err"),
        out: read("out"),
        signal: if late { None } else { status.signal() },
        late,
        took: t.elapsed().as_secs_f64(),
        result: std::fs::read(dir.join("result.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default(),
    })
}

fn scratch(tool: Tool, idx: u64) -> PathBuf {
    let base = std::env::var("VH_TMP").unwrap_or_else(|_| format!("{}/target/run", std::env::var("VH_ROOT").unwrap_or_else(|_| "/verif".into())));
    PathBuf::from(base).join(format!("C30-{tool:?}-{idx}-{}", std::process::id()))
}

fn judge(c: &mut Case, tool: Tool, job: Job) -> CaseResult {
    let name = format!("{tool:?}").to_lowercase();
    c.feed(&(&name, format!("{job:?}"), c.idx));
    if !c.replay && seconds_left() <= 0 {
        c.trivial = true;
        c.count(&format!("{name}: programs left out for lack of time"), 1);
        return Ok(());
    }
    let dir = scratch(tool, c.idx);
    let first = (c.seed % 1_000_000) * 1000 + c.idx * 20;
    c.note(format!("{tool:?}: {job:?}, first case {first}"));
    let seed = c.seed + 1_000_003 * (c.idx / CHECKS.len() as u64);
    let mut o = execute(tool, &job, first, seed, c.thorough, true, &dir)?;
    if tool == Tool::Address && o.err.contains("LeakSanitizer has encountered a fatal error") {
        c.count("leak detection not possible here", 1);
        o = execute(tool, &job, first, seed, c.thorough, false, &dir)?;
    }
    let _ = std::fs::remove_dir_all(&dir);
    if let Ok(log) = std::env::var("C30_LOG") {
        use std::io::Write;
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(log) {
            let _ = writeln!(f, "{:.1} {name} {job:?}{}", o.took, if o.late { " LATE" } else { "" });
        }
    }
    let of = format!("{} under the {name} tool", job.check);
    for l in o.err.lines().take(80) {
        if c.replay {
            eprintln!("    {l}");
        }
    }
    match listen(&o.err) {
        Said::Report(kind, text) => {
            for l in text.lines() {
                c.note(l.to_string());
            }
            let ours = text.lines().find(|l| l.contains("mysql_connector") || l.contains("mysql-connector/") || l.contains("/repo/")).unwrap_or("");
            return violation(&kind, format!("{of}: {} … {}", text.lines().next().unwrap_or(""), ours.trim()));
        }
        Said::Other(what) => {
            c.count(&format!("{name}: programs ended by something else"), 1);
            c.note(what);
        }
        Said::Broken(what) => {
            c.count(&format!("{name}: tool failures"), 1);
            c.trivial = true;
            c.note(what);
            return Ok(());
        }
        Said::Nothing => {}
    }
    if let Some(s @ (libc::SIGSEGV | libc::SIGBUS | libc::SIGILL)) = o.signal {
        return violation("crash", format!("{of} ended with signal {s}: {}", brief(o.err.lines().rev().take(5).collect::<Vec<_>>())));
    }
    // the little programs watch their items themselves
    if job.check == "small" {
        if let Some(f) = o.result["found"].as_array().and_then(|a| a.first()) {
            let text = |k: &str| f[k].as_str().unwrap_or("").to_string();
            if !text("sig").starts_with("panic") && text("sig") != "connect failed" {
                return violation(&text("sig"), text("msg"));
            }
        }
    }
    let evals = match tool {
        Tool::Miri => o.out.lines().filter(|l| l.starts_with("case ")).count() as u64,
        _ => o.result["evals"].as_u64().unwrap_or(0),
    };
    if o.late {
        c.count(&format!("{name}: programs stopped after their time"), 1);
    } else if evals == 0 && tool != Tool::Miri {
        c.count(&format!("{name}: programs without a result"), 1);
    } else {
        c.count(&format!("{name}: programs run to the end"), 1);
    }
    if evals == 0 {
        c.note(o.err.lines().rev().take(5).collect::<Vec<_>>().join(" | "));
    }
    c.count(&format!("{name}: cases"), evals);
    let events: u64 = o.result["obs"].as_object().map_or(0, |m| m.values().filter_map(|v| v.as_u64()).sum());
    c.count(&format!("{name}: events of these"), events);
    c.sample(format!("{of}: {evals} cases, {events} events"));
    Ok(())
}

fn sanitized(tool: Tool) -> impl Fn(&mut Case) -> CaseResult {
    move |c| {
        let job = Job { check: CHECKS[c.idx as usize % CHECKS.len()], cases: None };
        judge(c, tool, job)
    }
}

fn interpreted(list: &'static [(&'static str, &'static str, u64)]) -> impl Fn(&mut Case) -> CaseResult {
    move |c| {
        let (check, group, n) = list[c.idx as usize % list.len()];
        let n = if c.thorough { n * 2 } else { n };
        judge(c, Tool::Miri, Job { check, cases: Some((group, n)) })
    }
}

// ---------------------------------------------------------------- what may cross threads

/// `Send`/`Sync` of a type, as the compiler sees it.
macro_rules! auto {
    ($t:ty, $tr:ident) => {{
        #[allow(dead_code)]
        trait Fallback {
            const IS: bool = false;
        }
        impl<T: ?Sized> Fallback for T {}
        struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $tr> Probe<T> {
            const IS: bool = true;
        }
        <Probe<$t>>::IS
    }};
}

macro_rules! content {
    ($t:ident, $inner:ty, $ctx:ty) => {
        #[derive(Debug)]
        #[allow(dead_code)]
        struct $t($inner);
        impl SyncPoolContent for $t {
            type Ctx = $ctx;
            fn new(_: &$ctx) -> Self {
                $t(Default::default())
            }
            fn reset(&mut self, _: &$ctx) {}
        }
        impl AsyncPoolContentError for $t {
            type Error = ();
        }
        impl AsyncPoolContent<()> for $t {
            type Ctx = $ctx;
            fn new<'a>(_: &'a $ctx) -> Pin<Box<dyn Future<Output = Result<Self, ()>> + 'a>> {
                Box::pin(async { Ok($t(Default::default())) })
            }
        }
    };
}

content!(Plain, u64, u64);
content!(Counted, Rc<u64>, u64);
content!(Unshared, Cell<u64>, u64);
content!(LocalCtx, u64, Rc<u64>);
content!(CellCtx, u64, Cell<u64>);

fn traits(c: &mut Case) -> CaseResult {
    let mut seen = 0;
    macro_rules! never {
        ($($t:ty: $tr:ident, $why:expr;)*) => {$(
            seen += 1;
            ensure!(!auto!($t, $tr), "unsound auto trait", "{} is {}: {}", stringify!($t), stringify!($tr), $why);
        )*};
    }
    const RC: &str = "its items must stay on their thread";
    const CELL: &str = "its items must not be shared by threads";
    const CTX: &str = "returning an item uses the pool's context, which must not be shared by threads";
    never! {
        SyncPool<Counted, 2>: Send, RC;
        SyncPool<Counted, 2>: Sync, RC;
        SyncPool<LocalCtx, 2>: Send, CTX;
        SyncPool<LocalCtx, 2>: Sync, CTX;
        SyncPool<CellCtx, 2>: Sync, CTX;
        SyncPool<Vec<Rc<u8>>, 2>: Send, RC;
        SyncPool<Vec<Rc<u8>>, 2>: Sync, RC;
        AsyncPool<Counted, (), 2>: Send, RC;
        AsyncPool<Counted, (), 2>: Sync, RC;
        AsyncPool<LocalCtx, (), 2>: Send, CTX;
        AsyncPool<LocalCtx, (), 2>: Sync, CTX;
        AsyncPool<CellCtx, (), 2>: Sync, CTX;
        PoolItem<'static, Counted>: Send, RC;
        PoolItem<'static, Counted>: Sync, RC;
        PoolItem<'static, Unshared>: Sync, CELL;
        PoolItem<'static, CellCtx>: Send, CTX;
        PoolItem<'static, LocalCtx>: Send, CTX;
        PoolItem<'static, Vec<Rc<u8>>>: Send, RC;
        PoolItem<'static, Vec<Rc<u8>>>: Sync, RC;
        PoolItem<'static, Vec<Cell<u8>>>: Sync, CELL;
    }
    // that the probe itself works
    if !auto!(SyncPool<Plain, 2>, Sync) && !auto!(Vec<u8>, Send) || auto!(Rc<u8>, Send) {
        return inconclusive("the probe for auto traits does not work");
    }
    c.feed(&seen);
    c.count("auto traits looked at", seen);
    Ok(())
}

// ---------------------------------------------------------------- memory that stays

/// Runs `round` often; the memory still in use may not grow with the number of rounds.
fn level(c: &mut Case, what: &str, slack: isize, rounds: usize, mut round: impl FnMut(usize)) -> CaseResult {
    for i in 0..rounds / 4 + 2 {
        round(i);
    }
    let a = alloc::live();
    for i in 0..rounds {
        round(i);
    }
    let b = alloc::live();
    for i in 0..rounds {
        round(i);
    }
    let d = alloc::live();
    c.note(format!("{what}: {a}, {b}, {d} bytes"));
    ensure!(
        b - a <= slack || d - b <= slack || (d - b) < (b - a) / 2,
        "memory kept",
        "{what}: {} bytes are kept after {rounds} rounds, {} more after as many again",
        b - a,
        d - b
    );
    c.count("rounds of use whose memory was given back", rounds as u64);
    Ok(())
}

struct Slow;

impl AsyncPoolContentError for Slow {
    type Error = ();
}

impl AsyncPoolContent<()> for Slow {
    type Ctx = ();
    fn new<'a>(_: &'a ()) -> Pin<Box<dyn Future<Output = Result<Self, ()>> + 'a>> {
        Box::pin(std::future::pending())
    }
}

fn ready<T>(mut f: Pin<Box<impl Future<Output = T> + ?Sized>>) -> Option<T> {
    match f.as_mut().poll(&mut Context::from_waker(std::task::Waker::noop())) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}

fn steady(c: &mut Case) -> CaseResult {
    let which = c.idx % 8;
    let seed = c.rng.u64();
    c.feed(&(which, seed));
    let rounds = if c.thorough { 4000 } else { 400 };
    match which {
        0 => {
            let pool: SyncPool<Vec<u8>, 4> = SyncPool::new(VecPoolCtx { size_cap: 100, init_size: 10 });
            level(c, "buffers of a pool", 4096, rounds, |i| {
                let mut held: Vec<_> = (0..6).map(|_| pool.get()).collect();
                for h in &mut held {
                    h.resize(50 + i % 3000, 1);
                }
            })
        }
        1 => {
            let pool: SyncPool<Vec<String>, 2> = SyncPool::new(VecPoolCtx { size_cap: 3, init_size: 0 });
            level(c, "contents of buffers", 4096, rounds, |i| {
                let mut a = pool.get();
                let _b = pool.get();
                a.extend((0..i % 20).map(|j| "text".repeat(j)));
            })
        }
        2 => level(c, "pools", 4096, rounds, |i| {
            let pool: SyncPool<Vec<u8>, 3> = SyncPool::new(VecPoolCtx { size_cap: 100, init_size: 10 });
            let mut x = pool.get();
            x.resize(i % 300, 0);
            drop(x);
            let a: AsyncPool<Plain, (), 3> = AsyncPool::new(1);
            let x = ready(a.get());
            let y = ready(a.get());
            drop((x, y));
        }),
        3 => {
            let pool: AsyncPool<Slow, (), 1> = AsyncPool::new(());
            let mut first = pool.get();
            let _ = first.as_mut().poll(&mut Context::from_waker(std::task::Waker::noop()));
            struct W(#[allow(dead_code)] [u64; 8]);
            impl std::task::Wake for W {
                fn wake(self: Arc<Self>) {}
            }
            level(c, "abandoned waits", 4096, rounds, |i| {
                let w = std::task::Waker::from(Arc::new(W([0; 8])));
                let mut f = pool.get();
                for _ in 0..i % 3 {
                    let _ = f.as_mut().poll(&mut Context::from_waker(&w));
                }
            })
        }
        4 => {
            let pool: AsyncPool<Slow, (), 2> = AsyncPool::new(());
            level(c, "abandoned creations", 4096, rounds, |_| {
                let _ = ready(pool.get());
            })
        }
        5 | 6 => {
            // one connection, many responses; then many connections
            let sh = Shape { max_bytes: 3000, ..Default::default() };
            let steps: Vec<Step> = (0..6).map(|i| step(&mut c.rng, &sh, i)).collect();
            let n = rounds / 8;
            let one = |i: usize| -> Result<(), Fail> {
                drive("session", async {
                    let (link, _) = Server::new(Scripted::new(&steps)).link(IoPlan::default());
                    let mut conn = must_connect(&link).await?;
                    let mut out = vec![];
                    let m = 1 + i % steps.len();
                    for st in &steps[..m] {
                        perform(&mut conn, st, &mut out).await;
                    }
                    Ok(())
                })
            };
            one(5)?;
            level(c, "sessions", 4096, n, |i| {
                let _ = one(i);
            })
        }
        _ => {
            let reply = move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| match cmd {
                Cmd::Query(q) if q.len() % 3 == 0 => s.err(io, &ErrSpec::new(1064, "42000", "no".repeat(200))),
                Cmd::Query(q) => {
                    let cell = vec![b'x'; 40 * q.len()];
                    s.result(io, &[ColSpec::new("c", typ::VARSTRING, 0)], &[text_row(&[Some(cell)])], &OkSpec::default());
                }
                Cmd::Prepare(q) => {
                    s.prepared(io, &q, 0, &[]);
                }
                Cmd::Quit => {}
                _ => s.ok(io, &OkSpec::default()),
            };
            let (link, _) = server(reply, IoPlan::default());
            let rt = runner::runtime();
            let Ok(mut conn) = rt.block_on(connect(&link)) else { return inconclusive("no connection") };
            // the harness keeps what the client sends, 35 bytes per command; responses have a kilobyte
            let r = level(c, "commands on one connection", 100 * rounds as isize, rounds, |i| {
                let sql = "q".repeat(1 + i % 50);
                rt.block_on(async {
                    match i % 4 {
                        0 => drop(conn.query::<Row>(&sql).await),
                        1 => {
                            if let Ok(mut rs) = conn.query::<Row>(&sql).await {
                                drop(rs.collect().await);
                            }
                        }
                        // (statements would stay in the memory of the harness's server)
                        _ => drop(conn.execute_query(&sql).await),
                    }
                });
            });
            drop::<Connection>(conn);
            r
        }
    }
}

pub fn main() {
    let n = CHECKS.len() as u64;
    Check::new("C30", "programs with a tool watching that differ in the tool, the workload or its seed; native cases that differ in what they do")
        .unlimited()
        .group_on(1, "traits", 1, 1, traits)
        .group_on(1, "steady", 32, 400, steady)
        .group_on(8, "miri", LIGHT.len() as u64, LIGHT.len() as u64 * 20, interpreted(LIGHT))
        .group_on(8, "miri_heavy", 0, HEAVY.len() as u64 * 8, interpreted(HEAVY))
        .group_on(3, "address", n, n * 2, sanitized(Tool::Address))
        .group_on(2, "thread", n, n * 2, sanitized(Tool::Thread))
        .group_on(3, "memory", n, n * 2, sanitized(Tool::Memory))
        .require("auto traits looked at", 20)
        .require("rounds of use whose memory was given back", 1000)
        .require("address: cases", 2000)
        .assume("what ASan, LSan, MSan, TSan and Miri (Stacked Borrows) report is undefined behaviour or a leak")
        .main()
}
