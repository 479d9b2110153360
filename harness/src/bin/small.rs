//! Small programs for C30: few threads and no synchronisation besides the library's own, so that
//! Miri and the thread sanitizer see what the library itself guarantees.
use {
    mysql_connector::{
        pool::{AsyncPool, AsyncPoolContent, AsyncPoolContentError, AsyncPoolTrait, PoolItem, SyncPool, SyncPoolContent, VecPoolCtx},
        Connection,
    },
    std::{
        future::Future,
        pin::Pin,
        sync::{
            atomic::{AtomicU64, Ordering::Relaxed},
            Arc,
        },
        task::{Context, Poll, Wake, Waker},
        time::Duration,
    },
    vharness::{kit::*, rng::Rng, script::*, stream::Dialer, wire::*, *},
};

// Relaxed counters order nothing between the threads.
static MADE: AtomicU64 = AtomicU64::new(0);
static GONE: AtomicU64 = AtomicU64::new(0);
static BAD: AtomicU64 = AtomicU64::new(0);
static TAKEN: AtomicU64 = AtomicU64::new(0);
static WAITED: AtomicU64 = AtomicU64::new(0);

fn begin() {
    for c in [&MADE, &GONE, &BAD, &TAKEN, &WAITED] {
        c.store(0, Relaxed);
    }
}

fn end(c: &mut Case, what: &str) -> CaseResult {
    let (made, gone) = (MADE.load(Relaxed), GONE.load(Relaxed));
    ensure!(BAD.load(Relaxed) == 0, "invalid item", "{what}: an item was altered or dropped while in use");
    ensure!(made == gone, "items not released", "{what}: {made} items were made, {gone} were dropped");
    c.count(&format!("{what}: items taken"), TAKEN.load(Relaxed));
    c.count(&format!("{what}: items made"), made);
    c.count(&format!("{what}: waits"), WAITED.load(Relaxed));
    Ok(())
}

/// Plain memory on the heap; using it from two threads at once is a data race.
struct Thing {
    cells: Box<[u64; 3]>,
    text: String,
    keep: bool,
}

impl Thing {
    fn new() -> Self {
        MADE.fetch_add(1, Relaxed);
        Self { cells: Box::new([1, 2, 3]), text: "thing".into(), keep: true }
    }

    fn touch(&mut self, n: u64) {
        if self.cells[0] + 1 != self.cells[1] || self.cells[1] + 1 != self.cells[2] {
            BAD.fetch_add(1, Relaxed);
        }
        for (i, x) in self.cells.iter_mut().enumerate() {
            *x = n + i as u64;
        }
        if self.text.len() > 40 {
            self.text = String::new();
        }
        self.text.push('x');
    }
}

impl Drop for Thing {
    fn drop(&mut self) {
        GONE.fetch_add(1, Relaxed);
        if self.cells[0] + 2 != self.cells[2] {
            BAD.fetch_add(1, Relaxed);
        }
        self.cells[0] = 99;
    }
}

impl SyncPoolContent for Thing {
    type Ctx = String;
    fn new(ctx: &String) -> Self {
        if ctx != "ctx" {
            BAD.fetch_add(1, Relaxed);
        }
        Thing::new()
    }
    fn reset(&mut self, ctx: &String) {
        self.touch(ctx.len() as u64);
    }
}

fn sync_threads<const N: usize>(c: &mut Case) -> CaseResult {
    begin();
    let seed = c.rng.u64();
    let (n, ops) = (2 + c.rng.usize(2), 4 + c.rng.usize(5));
    c.feed(&(N, n, ops, seed));
    {
        let pool: SyncPool<Thing, N> = SyncPool::new("ctx".into());
        let bufs: SyncPool<Vec<u8>, N> = SyncPool::new(VecPoolCtx { size_cap: 8, init_size: 2 });
        std::thread::scope(|s| {
            for t in 0..n {
                let (pool, bufs) = (&pool, &bufs);
                s.spawn(move || {
                    let mut rng = Rng::new(&[seed, t as u64]);
                    let mut held: Vec<PoolItem<Thing>> = vec![];
                    for i in 0..ops {
                        if held.len() < 2 && rng.coin() {
                            let mut x = pool.get();
                            TAKEN.fetch_add(1, Relaxed);
                            x.touch(i as u64);
                            held.push(x);
                        } else if let Some(mut x) = held.pop() {
                            x.as_mut().touch(7);
                            drop(x);
                        }
                        let mut b = bufs.get();
                        if !b.is_empty() {
                            BAD.fetch_add(1, Relaxed);
                        }
                        b.extend_from_slice(&[t as u8; 20][..rng.usize(21)]);
                        if b.iter().any(|x| *x != t as u8) {
                            BAD.fetch_add(1, Relaxed);
                        }
                    }
                });
            }
        });
    }
    end(c, "sync pool")
}

fn sync(c: &mut Case) -> CaseResult {
    match c.rng.below(3) {
        0 => sync_threads::<1>(c),
        1 => sync_threads::<2>(c),
        _ => sync_threads::<5>(c),
    }
}

// ---------------------------------------------------------------- async pool

#[derive(Debug)]
struct Ctx {
    calls: AtomicU64,
    fail: u64,
    lazy: u64,
}

struct Later(u64);

impl Future for Later {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

#[derive(Debug)]
struct Refused;

impl AsyncPoolContentError for Thing {
    type Error = Refused;
}

impl AsyncPoolContent<()> for Thing {
    type Ctx = Ctx;
    fn new<'a>(ctx: &'a Ctx) -> Pin<Box<dyn Future<Output = Result<Self, Refused>> + 'a>> {
        Box::pin(async move {
            let n = ctx.calls.fetch_add(1, Relaxed);
            Later((n * 7 + ctx.lazy) % 3).await;
            if ctx.fail > 0 && n % ctx.fail == 1 {
                return Err(Refused);
            }
            Ok(Thing::new())
        })
    }
    fn reusable(&self) -> bool {
        self.keep
    }
}

struct Unpark(std::thread::Thread);

impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}

fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    loop {
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Ready(x) => return x,
            Poll::Pending => {
                WAITED.fetch_add(1, Relaxed);
                // a bounded wait: what happens to lost wake-ups is for C18
                std::thread::park_timeout(Duration::from_millis(200));
            }
        }
    }
}

fn async_threads<const N: usize>(c: &mut Case) -> CaseResult {
    begin();
    let seed = c.rng.u64();
    let (n, ops) = (2 + c.rng.usize(2), 3 + c.rng.usize(4));
    let fail = c.rng.below(4);
    let lazy = c.rng.below(3);
    c.feed(&(N, n, ops, fail, lazy, seed));
    {
        let pool: AsyncPool<Thing, (), N> = AsyncPool::new(Ctx { calls: AtomicU64::new(0), fail: if fail == 0 { 0 } else { fail + 1 }, lazy });
        std::thread::scope(|s| {
            for t in 0..n {
                let pool = &pool;
                s.spawn(move || {
                    let mut rng = Rng::new(&[seed, t as u64]);
                    for i in 0..ops {
                        if rng.chance(1, 4) {
                            // loses patience
                            let mut f = pool.get();
                            let w = Waker::from(Arc::new(Unpark(std::thread::current())));
                            for _ in 0..1 + rng.below(2) {
                                if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                                    if let Ok(mut x) = x {
                                        x.touch(50);
                                    }
                                    break;
                                }
                            }
                            drop(f);
                        } else if let Ok(mut x) = block_on(pool.get()) {
                            TAKEN.fetch_add(1, Relaxed);
                            x.touch(i as u64);
                            if rng.coin() {
                                std::thread::yield_now();
                            }
                            x.keep = !rng.chance(1, 4);
                            x.touch(3);
                        }
                    }
                });
            }
        });
    }
    end(c, "async pool")
}

fn asynchronous(c: &mut Case) -> CaseResult {
    match c.rng.below(3) {
        0 => async_threads::<1>(c),
        1 => async_threads::<2>(c),
        _ => async_threads::<3>(c),
    }
}

// ---------------------------------------------------------------- connections

fn rt() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_time().build().expect("runtime")
}

fn little() -> Shape {
    Shape { max_cols: 3, max_rows: 2, max_bytes: 30, ..Default::default() }
}

/// Connections on threads of their own; they share nothing but the library's buffers. One is made
/// here and used there.
fn sessions(c: &mut Case) -> CaseResult {
    begin();
    let n = 2 + c.rng.usize(2);
    let mut work = vec![];
    for t in 0..n {
        let steps: Vec<Step> = (0..2 + c.rng.below(2)).map(|i| step(&mut c.rng, &little(), t as u64 * 10 + i)).collect();
        let plan = if c.rng.coin() { IoPlan::default() } else { IoPlan::random(&mut c.rng) };
        let (link, _) = Server::new(Scripted::new(&steps)).link(plan);
        let early: Option<Connection> = if c.rng.coin() { rt().block_on(connect(&link)).ok() } else { None };
        work.push((steps, link, early));
    }
    c.feed(&work.iter().map(|w| format!("{:?}", w.0)).collect::<Vec<_>>());
    let seen: Vec<usize> = std::thread::scope(|s| {
        let hs: Vec<_> = work
            .into_iter()
            .map(|(steps, link, early)| {
                s.spawn(move || {
                    rt().block_on(async move {
                        let mut conn = match early {
                            Some(c) => c,
                            None => match connect(&link).await {
                                Ok(c) => c,
                                Err(_) => return 0,
                            },
                        };
                        let mut out = vec![];
                        for st in &steps {
                            perform(&mut conn, st, &mut out).await;
                        }
                        // looks at everything that was received
                        format!("{out:?}").len()
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(0)).collect()
    });
    c.count("sessions on threads of their own", seen.iter().filter(|n| **n > 0).count() as u64);
    Ok(())
}

struct Net(Vec<Step>);

impl Dialer for Net {
    fn dial(&self) -> Link {
        Server::new(Scripted::new(&self.0)).link(IoPlan::default()).0
    }
}

/// A pool of connections used by several threads.
fn shared(c: &mut Case) -> CaseResult {
    begin();
    let n = 2;
    let steps: Vec<Step> = (0..3u64).map(|i| step(&mut c.rng, &little(), i)).collect();
    let seed = c.rng.u64();
    c.feed(&(format!("{steps:?}"), seed));
    let pool: AsyncPool<Connection, Mem, 1> = AsyncPool::new(Arc::new(opts(dialer(Net(steps.clone())))));
    let used: u64 = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|t| {
                let (pool, steps) = (&pool, &steps);
                s.spawn(move || {
                    let mut rng = Rng::new(&[seed, t]);
                    rt().block_on(async {
                        let mut used = 0;
                        for _ in 0..2 {
                            // waits in short turns, see `block_on`
                            let conn = loop {
                                match tokio::time::timeout(Duration::from_millis(500), pool.get()).await {
                                    Ok(x) => break x,
                                    Err(_) => continue,
                                }
                            };
                            let Ok(mut conn) = conn else { continue };
                            let mut out = vec![];
                            perform(&mut conn, &steps[rng.usize(steps.len())], &mut out).await;
                            used += u64::from(!out.is_empty() && !format!("{out:?}").is_empty());
                        }
                        used
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(0)).sum()
    });
    c.count("turns with a pooled connection", used);
    Ok(())
}

// ---------------------------------------------------------------- texts

fn valid(s: &str) -> bool {
    std::str::from_utf8(s.as_bytes()).is_ok()
}

fn debug_is_valid(what: &str, x: &impl std::fmt::Debug) -> CaseResult {
    let s = format!("{x:?}");
    ensure!(valid(&s), "invalid text", "{what}: the text {:?} is no valid UTF-8", String::from_utf8_lossy(s.as_bytes()));
    Ok(())
}

fn bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
    const ODD: &[u8] = &[0x80, 0xBF, 0xC0, 0xC3, 0xE2, 0x82, 0xED, 0xA0, 0xF0, 0x9F, 0xF4, 0x90, 0xFF, b'a', b'0', 0];
    match rng.below(4) {
        0 => (0..n).map(|_| rng.u64() as u8).collect(),
        1 => (0..n).map(|_| *rng.pick(ODD)).collect(),
        2 => {
            // a character that is cut off at the end
            let mut v = vec![b'a'; n];
            if let Some(x) = v.last_mut() {
                *x = *rng.pick(&[0xC3, 0xE2, 0xF0]);
            }
            v
        }
        _ => {
            let s = "äßñ€😀漢";
            let at = rng.usize(4);
            s.bytes().cycle().skip(at).take(n).collect()
        }
    }
}

/// Whatever the server sends, every text handed to the user is one.
fn texts(c: &mut Case) -> CaseResult {
    let mut err = vec![0xFF];
    err.extend_from_slice(&(c.rng.u64() as u16).to_le_bytes());
    if !c.rng.chance(1, 8) {
        err.push(b'#');
    }
    err.extend(bytes(&mut c.rng, 5));
    let n = c.rng.usize(12);
    err.extend(bytes(&mut c.rng, n));
    if c.rng.chance(1, 6) {
        err.truncate(1 + c.rng.usize(9));
    }
    let mut col = ColSpec::new("name", typ::VARSTRING, 0);
    col.table = "table".into();
    let mut def = col.encode();
    let name = bytes(&mut c.rng, 4);
    if c.rng.coin() {
        if let Some(i) = def.windows(4).position(|w| w == b"name") {
            def[i..i + 4].copy_from_slice(&name);
        }
    }
    if c.rng.coin() {
        if let Some(i) = def.windows(5).position(|w| w == b"table") {
            def[i..i + 4].copy_from_slice(&name);
        }
    }
    let cell_len = c.rng.usize(9);
    let cell = bytes(&mut c.rng, cell_len);
    let where_ = c.rng.below(4);
    c.feed(&(err.clone(), def.clone(), cell.clone(), where_));
    c.note(format!("error packet {err:?} at {where_}, definition {def:?}, cell {cell:?}"));
    let (e2, d2, cell2) = (err.clone(), def, cell);
    let handler = move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| match cmd {
        Cmd::Query(_) => match where_ {
            0 => io.send(&e2),
            w => {
                io.send(&[1]);
                io.send(&d2);
                if !s.deprecate_eof() {
                    io.send(&OkSpec::default().old_eof());
                }
                io.send(&text_row(&[Some(cell2.clone())]));
                if w == 1 {
                    io.send(&e2);
                } else {
                    s.end(io, &OkSpec::default());
                }
            }
        },
        Cmd::Quit => {}
        _ => io.send(&e2),
    };
    drive("a session with odd texts", async {
        let (link, _) = server(handler, IoPlan::default());
        let mut conn = must_connect(&link).await?;
        let mut seen = 0u64;
        match conn.query::<Row>("x").await {
            Err(e) => debug_is_valid("error", &e)?,
            Ok(mut rs) => {
                for col in rs.columns() {
                    for t in [col.name(), col.org_name(), col.table(), col.org_table()] {
                        ensure!(valid(t), "invalid text", "column text {:?}", t.as_bytes());
                    }
                    debug_is_valid("column", col)?;
                }
                loop {
                    match rs.next().await {
                        Ok(Some(r)) => {
                            seen += 1;
                            debug_is_valid("row", &r)?;
                            for v in r {
                                let s: Result<String, _> = v.try_into();
                                if let Ok(s) = s {
                                    ensure!(valid(&s), "invalid text", "text value {:?}", s.as_bytes());
                                }
                            }
                        }
                        Ok(None) => break,
                        Err(e) => {
                            debug_is_valid("error", &e)?;
                            break;
                        }
                    }
                }
            }
        }
        match conn.prepare_statement("x").await {
            Err(e) => debug_is_valid("error", &e)?,
            Ok(_) => {}
        }
        c.count("rows with odd texts", seen);
        c.count("odd texts looked at", 1);
        Ok(())
    })
}

/// Column types next to the ones that exist, and some others.
fn types(c: &mut Case) -> CaseResult {
    let flags = c.rng.u64() as u16;
    let handler = move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| match cmd {
        Cmd::Query(q) => {
            let t = std::str::from_utf8(&q).ok().and_then(|q| q.parse().ok()).unwrap_or(0u8);
            s.result(io, &[ColSpec::new("a", t, flags)], &[], &OkSpec::default());
        }
        _ => s.ok(io, &OkSpec::default()),
    };
    let list: Vec<u8> = (14..=23).chain(239..=249).chain((0..10).map(|_| c.rng.u8())).collect();
    c.feed(&(flags, &list));
    drive("results of all types", async {
        let (link, _) = server(handler, IoPlan::default());
        let mut conn = must_connect(&link).await?;
        let (mut known, mut refused) = (0, 0);
        for t in list.iter().copied() {
            match conn.query::<Row>(&t.to_string()).await {
                Ok(rs) => {
                    for col in rs.columns() {
                        // looks at the type
                        debug_is_valid("column", &col.r#type())?;
                        known += 1;
                    }
                }
                Err(_) => refused += 1,
            }
        }
        c.count("column types known", known);
        c.count("column types refused", refused);
        Ok(())
    })
}

/// One packet of each kind, cut at each length, or with one byte changed.
struct Cut {
    kind: u64,
    at: usize,
    odd: Option<u8>,
    commands: u64,
    cut: u64,
}

impl Cut {
    fn put(&mut self, io: &mut PeerIo, kind: u64, p: &[u8]) {
        let mut p = p.to_vec();
        if kind == self.kind {
            self.cut += 1;
            let at = self.at % (p.len() + 1);
            match self.odd {
                None => p.truncate(at),
                Some(b) => {
                    let n = p.len();
                    p[at % n] = b;
                }
            }
        }
        io.send(&p);
    }
}

impl stream::Peer for Cut {
    fn start(&mut self, io: &mut PeerIo) {
        self.put(io, 0, &Greeting::default().encode());
    }
    fn packet(&mut self, io: &mut PeerIo, pkt: Vec<u8>) {
        self.commands += 1;
        match (self.commands, pkt.first()) {
            (1, _) if self.kind == 1 => {
                let mut p = b"\xFEmysql_native_password\0".to_vec();
                p.extend([b'n'; 20]);
                p.push(0);
                self.put(io, 1, &p);
            }
            (1, _) | (2, _) if io.login => {
                self.put(io, 2, &OkSpec::default().encode(0));
                io.login = false;
            }
            (_, Some(3)) if self.kind == 9 => self.put(io, 9, &ErrSpec::new(1064, "42000", "no").encode()),
            (_, Some(0x16)) => {
                self.put(io, 3, &prepare_ok(1, 1, 0, 0));
                self.put(io, 4, &ColSpec::new("c", typ::LONG, 0).encode());
            }
            (_, Some(0x17)) | (_, Some(3)) => {
                io.send(&[1]);
                self.put(io, 5, &ColSpec::new("c", typ::LONG, 0).encode());
                if pkt[0] == 3 {
                    self.put(io, 6, &text_row(&[Some(b"12".to_vec())]));
                } else {
                    self.put(io, 7, &bin_row(&[Some(vec![1, 0, 0, 0])]));
                }
                self.put(io, 8, &OkSpec { status: 2, ..Default::default() }.encode(0xFE));
            }
            _ => {}
        }
        if self.cut > 0 {
            io.closed = true;
            io.item(stream::Item::Eof);
        }
    }
}

fn cuts(c: &mut Case) -> CaseResult {
    let kind = c.idx % 10;
    let at = (c.idx / 10) as usize;
    let odd = c.rng.chance(if at < 100 { 0 } else { 3 }, 4).then(|| *c.rng.pick(&[0, 1, 4, 0x7F, 0x80, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF]));
    let op = c.rng.below(3);
    c.feed(&(kind, at, odd, op));
    drive("a cut packet", async {
        let link = stream::Link::new(Box::new(Cut { kind, at, odd, commands: 0, cut: 0 }), IoPlan::default());
        let mut text = String::new();
        match connect(&link).await {
            Err(e) => text += &format!("{e:?}"),
            Ok(mut conn) => {
                if kind == 9 {
                    text += &format!("{:?}", conn.execute_query("x").await);
                } else if kind == 6 || op == 0 {
                    match conn.query::<Row>("x").await {
                        Err(e) => text += &format!("{e:?}"),
                        Ok(mut rs) => text += &format!("{:?}", rs.collect().await),
                    }
                } else {
                    match conn.prepare_statement("x").await {
                        Err(e) => text += &format!("{e:?}"),
                        Ok(mut st) => match st.query::<mysql_connector::types::Value, Row>(&[]).await {
                            Err(e) => text += &format!("{e:?}"),
                            Ok(mut rs) => text += &format!("{:?}", rs.collect().await),
                        },
                    }
                }
            }
        }
        ensure!(valid(&text), "invalid text", "what was reported is no text");
        c.count("packets cut or changed", 1);
        Ok(())
    })
}

pub fn main() {
    Check::new("C30", "")
        .group_on(1, "sync", 400, 20_000, sync)
        .group_on(1, "async", 400, 20_000, asynchronous)
        .group_on(1, "sessions", 60, 4000, sessions)
        .group_on(1, "shared", 40, 2000, shared)
        .group("texts", 4000, 200_000, texts)
        .group("types", 20, 400, types)
        .group("cuts", 20_000, 300_000, cuts)
        .main()
}
