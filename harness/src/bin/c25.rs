//! C25: migrations run exactly once, in order, and the table tells the truth.
use {
    mysql_connector::{
        error::ProtocolError,
        pool::{AsyncPool, AsyncPoolTrait},
        simple_migration, types::Value, Connection, Error, Migration, MigrationList, Migrator, Version,
    },
    std::{
        collections::BTreeSet,
        future::Future,
        io,
        pin::Pin,
        sync::{Arc, Mutex},
        task::{Context, Poll},
    },
    vharness::{kit::*, minidb::*, stream::Dialer, *},
};

type V = (u16, u16, u16);
type Applied = BTreeSet<(V, String)>;

fn version(v: V) -> Version {
    Version(v.0, v.1, v.2)
}

fn truth(db: &Db) -> Result<Applied, String> {
    let Some(t) = db.tab("migrations") else { return Ok(Applied::new()) };
    let mut at = Vec::new();
    for n in ["version_0", "version_1", "version_2", "name"] {
        at.push(t.col(n).ok_or(format!("the table has no column {n}"))?);
    }
    let mut set = Applied::new();
    for r in &t.rows {
        let n = |i: usize| match &r[at[i]] {
            Value::UShort(x) => Ok(*x),
            v => Err(format!("a version is stored as {v:?}")),
        };
        let Value::Bytes(name) = &r[at[3]] else { return Err("a name is no text".into()) };
        let k = ((n(0)?, n(1)?, n(2)?), String::from_utf8_lossy(name).into_owned());
        if !set.insert(k.clone()) {
            return Err(format!("{k:?} is listed twice"));
        }
    }
    Ok(set)
}

#[derive(Clone, Debug, PartialEq)]
struct Call {
    up: bool,
    version: V,
    name: String,
    /// the bookkeeping table at the time of the call
    table: Applied,
}

#[derive(Default)]
struct Log {
    calls: Vec<Call>,
    bad: Option<String>,
    /// calls that fail: number of the call within the operation
    fail_at: Option<u64>,
    acts: u64,
}

struct Mig {
    version: V,
    name: &'static str,
    conns: u8,
    db: Arc<Mutex<Db>>,
    log: Arc<Mutex<Log>>,
}

impl Mig {
    fn call<'a>(&'a self, up: bool, pool: &'a dyn AsyncPoolTrait<Connection>) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        Box::pin(async move {
            let fails = {
                let table = truth(&lock(&self.db));
                let mut l = lock(&self.log);
                match table {
                    Ok(table) => l.calls.push(Call { up, version: self.version, name: self.name.into(), table }),
                    Err(m) => l.bad = Some(m),
                }
                l.acts += 1;
                l.fail_at == Some(l.acts - 1)
            };
            if fails && self.conns % 2 == 0 {
                return Err(Error::Protocol(ProtocolError::Io(io::Error::new(io::ErrorKind::Other, "injected"))));
            }
            let mut held = Vec::new();
            for _ in 0..self.conns {
                let mut c = pool.get().await?;
                c.execute_query("insert into `effects` (`n`) values (1)").await?;
                held.push(c);
            }
            tokio::task::yield_now().await;
            if fails {
                return Err(Error::Protocol(ProtocolError::Io(io::Error::new(io::ErrorKind::Other, "injected"))));
            }
            Ok(())
        })
    }
}

impl Migration for Mig {
    fn name(&self) -> &'static str {
        self.name
    }
    fn up<'a>(&'a self, pool: &'a dyn AsyncPoolTrait<Connection>) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        self.call(true, pool)
    }
    fn down<'a>(&'a self, pool: &'a dyn AsyncPoolTrait<Connection>) -> Pin<Box<dyn Future<Output = Result<(), Error>> + 'a>> {
        self.call(false, pool)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    New,
    Up,
    UpTo(V),
    UpToNone,
    DownTo(V),
    To(V),
    OneDown,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Trouble {
    None,
    /// the n-th migration called fails
    Migration(u64),
    /// the n-th statement is refused / the connection breaks before / after it
    Refuse(u64),
    Before(u64),
    After(u64),
    /// the n-th dial fails
    Dial(u64),
    /// the future is dropped after so many polls
    Crash(u64),
}

struct Net {
    db: Arc<Mutex<Db>>,
    plan: IoPlan,
    links: Mutex<Vec<Link>>,
    refuse: Mutex<Option<u64>>,
}

impl Dialer for Net {
    fn dial(&self) -> Link {
        let mut links = lock(&self.links);
        let n = links.len() as u32;
        let mut srv = Server::new(connection(self.db.clone(), n));
        srv.greeting.conn_id = n + 1;
        let mut plan = self.plan.clone();
        plan.seed = plan.seed.wrapping_add(n as u64);
        let mut r = lock(&self.refuse);
        if *r == Some(0) {
            plan.connect_err = Some(io::ErrorKind::ConnectionRefused);
        }
        *r = r.and_then(|x| x.checked_sub(1));
        let link = srv.link(plan).0;
        links.push(link.clone());
        link
    }
}

struct Fwd(Arc<Net>);
impl Dialer for Fwd {
    fn dial(&self) -> Link {
        self.0.dial()
    }
}

struct Cut<F> {
    f: Pin<Box<F>>,
    left: u64,
}

impl<F: Future> Future for Cut<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.left == 0 {
            return Poll::Ready(None);
        }
        self.left -= 1;
        self.f.as_mut().poll(cx).map(Some)
    }
}

fn cut<F: Future>(f: F, polls: u64) -> Cut<F> {
    Cut { f: Box::pin(f), left: polls }
}

/// Everything leaked for the 'static lists, freed when the case ends without a panic.
#[derive(Default)]
struct Arena {
    migs: Vec<*mut Mig>,
    names: Vec<*mut str>,
    slices: Vec<*mut [&'static dyn Migration]>,
}

impl Arena {
    fn name(&mut self, s: &str) -> &'static str {
        let p = Box::into_raw(s.to_string().into_boxed_str());
        self.names.push(p);
        // SAFETY: lives until `free`
        unsafe { &*p }
    }
    fn mig(&mut self, m: Mig) -> &'static dyn Migration {
        let p = Box::into_raw(Box::new(m));
        self.migs.push(p);
        // SAFETY: lives until `free`
        unsafe { &*p }
    }
    fn slice(&mut self, v: Vec<&'static dyn Migration>) -> &'static [&'static dyn Migration] {
        let p = Box::into_raw(v.into_boxed_slice());
        self.slices.push(p);
        // SAFETY: lives until `free`
        unsafe { &*p }
    }
    /// No list, migration or name may be used afterwards.
    unsafe fn free(self) {
        for p in self.slices {
            drop(Box::from_raw(p));
        }
        for p in self.migs {
            drop(Box::from_raw(p));
        }
        for p in self.names {
            drop(Box::from_raw(p));
        }
    }
}

fn name(rng: &mut Rng) -> String {
    const HOT: &[&str] = &["'", "\"", "\\", "`", "\0", "\n", "%", "_", ";", "--", " ", "é", "\u{10FFFF}", "\r", "a", "b"];
    match rng.below(4) {
        0 => {
            let mut s = String::new();
            for _ in 0..rng.range(1, 6) {
                s.push_str(rng.pick(HOT));
            }
            s
        }
        1 => rng.text(12).replace('\u{1a}', "z"),
        2 => format!("m{}", rng.below(4)),
        _ => (*rng.pick(&["CreateUser", "CreateAddress", "Init", "AddIndex", "x"])).into(),
    }
}

fn part(rng: &mut Rng, edge: bool) -> u16 {
    if edge {
        *rng.pick(&[0, 1, 2, 9, 10, 11, 99, 100, 255, 256, 257, 32767, 32768, 65534, 65535])
    } else {
        rng.below(4) as u16
    }
}

fn ver(rng: &mut Rng, edge: bool) -> V {
    (part(rng, edge), part(rng, edge), part(rng, edge))
}

/// All migrations there will ever be: (version, names), ascending.
type Plan = Vec<(V, Vec<(String, u8, u32)>)>;

fn expect(plan: &Plan, generation: u32, table: &Applied, op: Op) -> (Vec<(bool, V, String)>, Vec<(bool, V, String)>) {
    let all: Vec<(V, String)> = plan.iter().flat_map(|(v, m)| m.iter().filter(|x| x.2 <= generation).map(|x| (*v, x.0.clone()))).collect();
    let ups = |to: Option<V>| {
        all.iter()
            .filter(|k| to.is_none_or(|t| k.0 <= t) && !table.contains(*k))
            .map(|k| (true, k.0, k.1.clone()))
            .collect::<Vec<_>>()
    };
    let downs = |to: V| all.iter().rev().filter(|k| k.0 > to && table.contains(*k)).map(|k| (false, k.0, k.1.clone())).collect::<Vec<_>>();
    match op {
        Op::New => (vec![], vec![]),
        Op::Up | Op::UpToNone => (ups(None), vec![]),
        Op::UpTo(v) => (ups(Some(v)), vec![]),
        Op::DownTo(v) => (vec![], downs(v)),
        Op::To(v) => (ups(Some(v)), downs(v)),
        Op::OneDown => (vec![], all.iter().rev().filter(|k| table.contains(*k)).take(1).map(|k| (false, k.0, k.1.clone())).collect()),
    }
}

struct Outcome {
    /// None: the future was dropped
    result: Option<Result<Option<bool>, Error>>,
    calls: Vec<Call>,
}

fn judge(c: &mut Case, plan: &Plan, generation: u32, op: Op, trouble: Trouble, before: &Applied, out: &Outcome, after: &Applied) -> CaseResult {
    let (ups, downs) = expect(plan, generation, before, op);
    let full = ups.len() + downs.len();
    let calls: Vec<(bool, V, String)> = out.calls.iter().map(|x| (x.up, x.version, x.name.clone())).collect();
    let shown = || format!("{op:?} with {trouble:?} at {before:?} of {plan:?} (generation {generation})");
    let a: Vec<_> = ups.iter().chain(&downs).cloned().collect();
    let b: Vec<_> = downs.iter().chain(&ups).cloned().collect();
    ensure!(a.starts_with(&calls) || b.starts_with(&calls), "wrong migrations", "{}: ran {calls:?}, expected {a:?}", shown());
    // the table follows each call
    let mut state = before.clone();
    let mut states = vec![state.clone()];
    for (x, k) in out.calls.iter().zip(&calls) {
        ensure!(x.table == state, "table lags", "{}: when {k:?} is called the table lists {:?} and should list {state:?}", shown(), x.table);
        let key = (k.1, k.2.clone());
        if k.0 {
            state.insert(key);
        } else {
            state.remove(&key);
        }
        states.push(state.clone());
    }
    c.count("migrations run", calls.len() as u64);
    c.count("migrations reverted", calls.iter().filter(|k| !k.0).count() as u64);
    let done = calls.len();
    let last = &states[done];
    let prev = &states[done.saturating_sub(1)];
    match &out.result {
        Some(Ok(r)) => {
            ensure!(done == full, "migration left out", "{}: succeeded having run only {calls:?} of {a:?}", shown());
            ensure!(after == last, "table wrong", "{}: ran {calls:?}, the table lists {after:?}", shown());
            if let Some(r) = r {
                ensure!(*r == (full > 0), "wrong answer", "{}: one_down returned {r}", shown());
            }
            if let Trouble::Migration(n) = trouble {
                ensure!(n >= done as u64, "failure hidden", "{}: the failing migration is not reported", shown());
            }
            c.count("operations that succeeded", 1);
            c.count("operations with something to do", (full > 0) as u64);
            c.count("moves both up and down", (!ups.is_empty() && !downs.is_empty()) as u64);
        }
        Some(Err(e)) => {
            match (trouble, e) {
                (Trouble::None, e) => return violation("failed", format!("{}: {}", shown(), brief(e))),
                (Trouble::Migration(n), e) => {
                    ensure!(done as u64 == n + 1, "failed", "{}: failed after {calls:?}: {}", shown(), brief(e));
                    ensure!(matches!(e, Error::Protocol(ProtocolError::Io(e)) if e.to_string() == "injected"), "error altered", "{}: reported as {}", shown(), brief(e));
                    ensure!(after == prev, "table wrong", "{}: {calls:?} was called and the last one failed, the table lists {after:?}", shown());
                    c.count("failed migrations", 1);
                }
                (Trouble::Refuse(_), e) => {
                    ensure!(matches!(kind(e), Kind::Server { .. }), "error altered", "{}: reported as {}", shown(), brief(e));
                    ensure!(after == prev, "table wrong", "{}: {calls:?}, then a statement was refused; the table lists {after:?}", shown());
                    c.count("refused statements", 1);
                }
                (Trouble::Before(_), _) => {
                    ensure!(after == prev, "table wrong", "{}: {calls:?}, then the connection broke; the table lists {after:?}", shown());
                    c.count("broken connections", 1);
                }
                (_, e) => {
                    ensure!(after == prev || after == last, "table wrong", "{}: {calls:?}, then {}; the table lists {after:?}", shown(), brief(e));
                    c.count("broken connections", 1);
                }
            }
        }
        None => {
            ensure!(after == prev || after == last, "table wrong", "{}: {calls:?}, then it was dropped; the table lists {after:?}", shown());
            c.count("operations dropped", 1);
        }
    }
    Ok(())
}

fn history<const N: usize>(c: &mut Case) -> CaseResult {
    let edge = c.rng.coin();
    let mut versions: Vec<V> = (0..c.rng.range(0, 5)).map(|_| ver(&mut c.rng, edge)).collect();
    versions.sort();
    versions.dedup();
    let mut plan: Plan = Vec::new();
    for v in &versions {
        let mut names: Vec<(String, u8, u32)> = Vec::new();
        for _ in 0..c.rng.below(4) {
            let n = name(&mut c.rng);
            // the column is case-insensitive and ignores spaces at the end, in MySQL
            if n.len() <= 255 && !names.iter().any(|x| x.0.to_lowercase().trim_end() == n.to_lowercase().trim_end()) {
                names.push((n, c.rng.below(N as u64 + 1) as u8, c.rng.below(3) as u32));
            }
        }
        plan.push((*v, names));
    }
    c.feed(&plan);
    c.note(format!("migrations (name, connections used, generation): {plan:?}"));
    let db = Arc::new(Mutex::new(Db::new("db", c.rng.fork())));
    let log = Arc::new(Mutex::new(Log::default()));
    {
        let mut d = lock(&db);
        let _ = d.exec("create table `effects` (`n` int)");
        if c.rng.coin() {
            let _ = d.exec("create table `other`.`migrations` (`version_0` smallint unsigned, `version_1` smallint unsigned, `version_2` smallint unsigned, `name` varchar(255))");
            let _ = d.exec("insert into `other`.`migrations` values (9, 9, 9, 'foreign')");
        }
    }
    let mut arena = Arena::default();
    // the lists of each generation of the program
    let mut lists: Vec<Vec<MigrationList>> = Vec::new();
    for g in 0..3 {
        let mut l = Vec::new();
        for (v, names) in &plan {
            let ms: Vec<&'static dyn Migration> = names
                .iter()
                .filter(|x| x.2 <= g)
                .map(|x| {
                    let name = arena.name(&x.0);
                    arena.mig(Mig { version: *v, name, conns: x.1, db: db.clone(), log: log.clone() })
                })
                .collect();
            l.push(MigrationList { version: version(*v), migrations: arena.slice(ms) });
        }
        lists.push(l);
    }
    let mut io = IoPlan::random(&mut c.rng);
    io.pend = *c.rng.pick(&[0, 0, 100]);
    let net = Arc::new(Net { db: db.clone(), plan: io, links: Default::default(), refuse: Default::default() });
    let r = drive("a history of migrators", async {
        let mut generation = 0;
        let mut programs = 0;
        let mut ops = 0;
        let total = c.rng.range(2, 9);
        // one program after the other
        while ops < total && programs < 12 {
            programs += 1;
            if generation < 2 && c.rng.chance(2, 5) {
                generation += 1;
            }
            let pool: AsyncPool<Connection, Mem, N> = AsyncPool::new(Arc::new(opts(dialer(Fwd(net.clone())))));
            let mut migrator: Option<Migrator> = None;
            loop {
                let op = if migrator.is_none() {
                    Op::New
                } else {
                    let near = !plan.is_empty() && c.rng.chance(3, 4);
                    let v = if near { plan[c.rng.below(plan.len() as u64) as usize].0 } else { ver(&mut c.rng, edge) };
                    match c.rng.below(11) {
                        0 => Op::Up,
                        1 | 2 => Op::UpTo(v),
                        3 => Op::UpToNone,
                        4 | 5 => Op::DownTo(v),
                        6 => Op::OneDown,
                        _ => Op::To(v),
                    }
                };
                let n = c.rng.below(4);
                let trouble = match c.rng.below(16) {
                    0 | 1 => Trouble::Migration(n),
                    2 => Trouble::Refuse(n * 2 + c.rng.below(3)),
                    3 => Trouble::Before(n * 2 + c.rng.below(3)),
                    4 => Trouble::After(n * 2 + c.rng.below(3)),
                    5 => Trouble::Dial(n / 2),
                    6 => Trouble::Crash(1 + c.rng.below(40)),
                    _ => Trouble::None,
                };
                c.note(format!("{op:?} {trouble:?} in generation {generation}"));
                {
                    let mut l = lock(&log);
                    l.calls.clear();
                    l.acts = 0;
                    l.fail_at = match trouble {
                        Trouble::Migration(n) => Some(n),
                        _ => None,
                    };
                    *lock(&net.refuse) = match trouble {
                        Trouble::Dial(n) => Some(n),
                        _ => None,
                    };
                    let mut seen = 0;
                    lock(&db).judge = Some(Box::new(move |_, _| {
                        seen += 1;
                        match trouble {
                            Trouble::Refuse(n) if n + 1 == seen => Fate::Refuse(ErrSpec::new(1205, "HY000", "Lock wait timeout exceeded")),
                            Trouble::Before(n) if n + 1 == seen => Fate::BreakBefore,
                            Trouble::After(n) if n + 1 == seen => Fate::BreakAfter,
                            _ => Fate::Run,
                        }
                    }));
                }
                let limit = match trouble {
                    Trouble::Crash(n) => n,
                    _ => u64::MAX,
                };
                let bad = |m| Fail::Violation { sig: "table wrong".into(), msg: m };
                let before = truth(&lock(&db)).map_err(bad)?;
                let result = match &mut migrator {
                    None => match cut(Migrator::new(&pool, &lists[generation as usize]), limit).await {
                        Some(Ok(m)) => {
                            migrator = Some(m);
                            Some(Ok(None))
                        }
                        Some(Err(e)) => Some(Err(e)),
                        None => None,
                    },
                    Some(m) => {
                        let f = async {
                            match op {
                                Op::Up => m.up().await.map(|_| None),
                                Op::UpToNone => m.up_to_version(None).await.map(|_| None),
                                Op::UpTo(v) => m.up_to_version(Some(version(v))).await.map(|_| None),
                                Op::DownTo(v) => m.down_to_version(version(v)).await.map(|_| None),
                                Op::To(v) => m.to_version(version(v)).await.map(|_| None),
                                _ => m.one_down().await.map(Some),
                            }
                        };
                        cut(f, limit).await
                    }
                };
                let after = truth(&lock(&db)).map_err(bad)?;
                if let Some(m) = lock(&log).bad.take() {
                    return violation("table wrong", m);
                }
                let out = Outcome { calls: std::mem::take(&mut lock(&log).calls), result };
                judge(c, &plan, generation, op, trouble, &before, &out, &after)?;
                if op == Op::New && matches!(out.result, Some(Ok(_))) {
                    let ok = lock(&db).tab("migrations").is_some();
                    ensure!(ok, "no table", "a new migrator made no table");
                    c.count("restarts with migrations applied", (!after.is_empty()) as u64);
                }
                ops += (op != Op::New) as u64;
                // what was done may be unknown to the migrator: start again
                let lost = match (&out.result, trouble) {
                    (None, _) => true,
                    (Some(Err(_)), Trouble::After(_)) => true,
                    _ => false,
                };
                if lost || migrator.is_none() || ops >= total || c.rng.chance(1, 5) {
                    break;
                }
                if matches!(out.result, Some(Err(_))) {
                    c.count("migrators used after a failure", 1);
                }
            }
        }
        let foreign = lock(&db).tabs.get(&("other".to_string(), "migrations".to_string())).map_or(1, |t| t.rows.len());
        ensure!(foreign == 1, "foreign table changed", "the table of another schema was changed");
        Ok(())
    });
    lock(&db).judge = None;
    drop(lists);
    // SAFETY: the futures, pools and migrators that used them are gone
    unsafe { arena.free() };
    r
}

fn versions(c: &mut Case) -> CaseResult {
    let edge = c.rng.coin();
    let mut vs: Vec<V> = (0..c.rng.range(0, 6)).map(|_| ver(&mut c.rng, edge)).collect();
    if c.rng.coin() {
        vs.sort();
    }
    if c.rng.coin() {
        vs.dedup();
    }
    c.feed(&vs);
    for a in &vs {
        for b in &vs {
            let (x, y) = (version(*a), version(*b));
            let got = (x.cmp(&y), x.partial_cmp(&y), x == y, x < y, x <= y, x > y, x >= y);
            let want = (a.cmp(b), a.partial_cmp(b), a == b, a < b, a <= b, a > b, a >= b);
            ensure!(got == want, "order of versions", "{a:?} and {b:?} compare as {got:?}");
            c.count("pairs of versions compared", 1);
        }
    }
    let list: Vec<MigrationList> = vs.iter().map(|v| MigrationList { version: version(*v), migrations: &[] }).collect();
    let want = vs.windows(2).all(|w| w[0] < w[1]);
    ensure!(MigrationList::ordered(&list) == want, "order of lists", "{vs:?} is ordered: {}", !want);
    Ok(())
}

simple_migration! { CreateA, "create table `a` (`x` int not null)", "drop table `a`" }
simple_migration! { CreateB, "create table `b` (`y` int)", "drop table `b`", }
simple_migration! { FillB, "insert into `b` (`y`) values (1), (2)", "delete from `b`" }
simple_migration! { CreateC, "create table `c` (`z` int)", "drop table `c`" }

const LISTS: &[MigrationList] = &[
    MigrationList { version: Version(0, 9, 0), migrations: &[&CreateA, &CreateB] },
    MigrationList { version: Version(0, 10, 0), migrations: &[&FillB] },
    MigrationList { version: Version(1, 0, 2), migrations: &[&CreateC] },
];

/// Migrations made with the macro, one of which may find its table missing or present.
fn simple(c: &mut Case) -> CaseResult {
    let db = Arc::new(Mutex::new(Db::new("db", c.rng.fork())));
    let net = Arc::new(Net { db: db.clone(), plan: IoPlan::random(&mut c.rng), links: Default::default(), refuse: Default::default() });
    let blocked = c.rng.chance(1, 3);
    if blocked {
        let _ = lock(&db).exec("create table `c` (`z` int)");
    }
    c.feed(&(blocked, c.rng.clone().u64()));
    drive("simple migrations", async {
        let pool: AsyncPool<Connection, Mem, 1> = AsyncPool::new(Arc::new(opts(dialer(Fwd(net.clone())))));
        let mut m = must(Migrator::new(&pool, LISTS).await, "failed", "Migrator::new")?;
        let mut at = 0;
        for _ in 0..c.rng.range(1, 6) {
            let (v, to) = *c.rng.pick(&[(Version(0, 0, 0), 0), (Version(0, 9, 0), 1), (Version(0, 9, 9), 1), (Version(0, 10, 0), 2), (Version(1, 0, 1), 2), (Version(1, 0, 2), 3), (Version(9, 0, 0), 3)]);
            let r = m.to_version(v).await;
            match r {
                Ok(()) => {
                    ensure!(!(blocked && to == 3), "failure hidden", "to {v}: a refused migration is not reported");
                    at = to;
                }
                Err(e) => {
                    ensure!(blocked && to == 3 && matches!(kind(&e), Kind::Server { .. }), "failed", "to {v}: {}", brief(e));
                    at = 2;
                    c.count("simple migrations refused", 1);
                }
            }
            let d = lock(&db);
            let b = d.tab("b").map(|t| t.rows.len());
            let got = (d.tab("a").is_some(), b, d.tab("c").is_some());
            let want = (at >= 1, if at == 0 { None } else { Some(if at >= 2 { 2 } else { 0 }) }, at >= 3 || blocked);
            ensure!(got == want, "effects wrong", "at {v}: tables {got:?}, expected {want:?}");
            let mut names: Vec<String> = truth(&d).map_err(|m| Fail::Violation { sig: "table wrong".into(), msg: m })?.into_iter().map(|x| x.1).collect();
            names.sort();
            let want: &[&str] = [&[][..], &["CreateA", "CreateB"], &["CreateA", "CreateB", "FillB"], &["CreateA", "CreateB", "CreateC", "FillB"]][at];
            ensure!(names == want, "table wrong", "at {v}: the table lists {names:?}");
            c.count("simple moves", 1);
        }
        Ok(())
    })
}

pub fn main() {
    Check::new("C25", "histories that differ in their migrations; lists of versions that differ")
        .assume("names within a version differ in more than case and trailing spaces (the table's collation ignores these)")
        .assume("the database is a small engine with MySQL's meaning of the statements used, strict mode")
        .assume("a program is restarted after a crash and after losing the answer to a statement that took effect")
        .scale(3)
        .group("one", 40_000, 800_000, history::<1>)
        .group("three", 25_000, 500_000, history::<3>)
        .group("versions", 20_000, 500_000, versions)
        .group("simple", 3000, 100_000, simple)
        .require("migrations run", 50_000)
        .require("migrations reverted", 10_000)
        .require("moves both up and down", 150)
        .require("failed migrations", 2000)
        .require("refused statements", 1000)
        .require("broken connections", 2000)
        .require("operations dropped", 1000)
        .require("migrators used after a failure", 2000)
        .require("restarts with migrations applied", 5000)
        .require("pairs of versions compared", 50_000)
        .require("simple moves", 3000)
        .require("simple migrations refused", 100)
        .main()
}
