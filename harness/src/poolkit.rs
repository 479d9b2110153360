//! Driving the async pool: a manual executor with tracked wakers, and a multi-threaded one that
//! detects when everybody sleeps.
use {
    crate::{
        ensure,
        rng::Rng,
        runner::{catching, violation, Case, CaseResult, Fail},
    },
    mysql_connector::pool::{AsyncPool, AsyncPoolContent, AsyncPoolContentError, AsyncPoolTrait, PoolItem},
    std::{
        cell::RefCell,
        collections::{BTreeMap, HashMap, VecDeque},
        fmt,
        future::Future,
        pin::Pin,
        sync::{
            atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst},
            Arc, Condvar, Mutex, MutexGuard, PoisonError,
        },
        task::{Context, Poll, RawWaker, RawWakerVTable, Waker},
    },
};

/// Which of the two pool properties a run judges.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Judge {
    /// exclusive, bounded, intact (C17)
    Items,
    /// progress and capacity (C18)
    Progress,
}

fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(PoisonError::into_inner)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Err,
    PanicInNew,
    PanicInPoll,
}

/// How the next item is created.
#[derive(Clone, Copy, Debug)]
pub struct Plan {
    /// times the future is not ready although it has woken its task
    pub yields: u32,
    /// waits until the harness lets it go on
    pub gate: bool,
    pub outcome: Outcome,
}

#[derive(Default)]
pub struct Book {
    next: u64,
    /// id → the value its last user wrote
    pub alive: BTreeMap<u64, u64>,
    pub dropped: u64,
    pub created: u64,
    pub creating: BTreeMap<u64, usize>,
    pub plans: VecDeque<Plan>,
    pub gates: BTreeMap<u64, Option<Waker>>,
    pub open: Vec<u64>,
    /// who is polled at the moment
    pub cur: usize,
    /// what went wrong, for the property about items
    pub bad: Vec<(String, String)>,
    /// items the users hold
    pub held: usize,
    pub max_alive: usize,
    limit: usize,
    sequential: bool,
}

pub struct World {
    pub book: Mutex<Book>,
}

impl fmt::Debug for World {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("World")
    }
}

pub struct Item {
    pub id: u64,
    pub val: u64,
    pub keep: bool,
    canary: Box<u64>,
    world: Arc<World>,
}

impl Drop for Item {
    fn drop(&mut self) {
        hook();
        let mut b = lock(&self.world.book);
        b.dropped += 1;
        if *self.canary != !self.id || b.alive.remove(&self.id).is_none() {
            let id = self.id;
            b.bad.push(("dropped twice".into(), format!("item {id} was dropped although it does not exist (any more)")));
        }
    }
}

#[derive(Debug, PartialEq)]
pub struct Failed(pub u64);

impl AsyncPoolContentError for Item {
    type Error = Failed;
}

struct Creation {
    id: u64,
    plan: Plan,
    world: Arc<World>,
}

pub const PANIC: &str = "planned panic while creating an item";

impl Future for Creation {
    type Output = Result<Item, Failed>;

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        hook();
        if self.plan.yields > 0 {
            self.plan.yields -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let world = self.world.clone();
        let mut b = lock(&world.book);
        if self.plan.gate {
            if let Some(i) = b.open.iter().position(|x| *x == self.id) {
                b.open.remove(i);
                self.plan.gate = false;
            } else {
                b.gates.insert(self.id, Some(cx.waker().clone()));
                return Poll::Pending;
            }
        }
        let id = self.id;
        match self.plan.outcome {
            Outcome::Ok | Outcome::PanicInNew => {
                b.creating.remove(&id);
                b.alive.insert(id, 0);
                b.created += 1;
                b.max_alive = b.max_alive.max(b.alive.len());
                if b.alive.len() > b.limit {
                    let m = format!("{} items exist in a pool of {}", b.alive.len(), b.limit);
                    b.bad.push(("too many items".into(), m));
                }
                drop(b);
                Poll::Ready(Ok(Item { id, val: 0, keep: true, canary: Box::new(!id), world: self.world.clone() }))
            }
            Outcome::Err => {
                b.creating.remove(&id);
                Poll::Ready(Err(Failed(id)))
            }
            Outcome::PanicInPoll => {
                b.creating.remove(&id);
                drop(b);
                std::panic::resume_unwind(Box::new(PANIC));
            }
        }
    }
}

impl Drop for Creation {
    fn drop(&mut self) {
        if lock(&self.world.book).creating.contains_key(&self.id) {
            // cancelled: what was made so far is there until now
            hook();
            linger();
        }
        let w = {
            let mut b = lock(&self.world.book);
            b.creating.remove(&self.id);
            b.gates.remove(&self.id)
        };
        drop(w);
    }
}

impl AsyncPoolContent<()> for Item {
    type Ctx = Arc<World>;

    fn new<'a>(ctx: &'a Self::Ctx) -> Pin<Box<dyn Future<Output = Result<Self, Failed>> + 'a>> {
        hook();
        let mut b = lock(&ctx.book);
        b.next += 1;
        let id = b.next;
        let plan = b.plans.pop_front().unwrap_or(Plan { yields: 0, gate: false, outcome: Outcome::Ok });
        if b.sequential && b.alive.len() > b.held {
            let m = format!("creating an item although {} returned ones are idle", b.alive.len() - b.held);
            b.bad.push(("idle item not reused".into(), m));
        }
        if plan.outcome == Outcome::PanicInNew {
            drop(b);
            std::panic::resume_unwind(Box::new(PANIC));
        }
        let cur = b.cur;
        if b.creating.len() + b.alive.len() >= b.limit {
            let m = format!("an item is created although {} exist and {} are being created in a pool of {}", b.alive.len(), b.creating.len(), b.limit);
            b.bad.push(("too many items".into(), m));
        }
        b.creating.insert(id, cur);
        drop(b);
        Box::pin(Creation { id, plan, world: ctx.clone() })
    }

    fn reusable(&self) -> bool {
        hook();
        self.keep
    }
}

// ------------------------------------------------------------------ wakers

thread_local! {
    static JITTER: RefCell<Option<Rng>> = const { RefCell::new(None) };
}

/// Called wherever the pool calls back; delays the thread at random in multi-threaded runs.
fn hook() {
    JITTER.with(|j| {
        let Ok(mut j) = j.try_borrow_mut() else { return };
        let Some(r) = j.as_mut() else { return };
        match r.below(32) {
            0..=5 => std::thread::yield_now(),
            6..=9 => {
                for _ in 0..r.below(if cfg!(miri) { 3 } else { 2000 }) {
                    std::hint::spin_loop();
                }
            }
            10 if !cfg!(miri) => std::thread::sleep(std::time::Duration::from_micros(r.below(80))),
            _ => {}
        }
    });
}

pub struct Flag {
    pub woken: AtomicBool,
    pub wakes: AtomicU64,
    park: Option<(Arc<Park>, usize)>,
}

impl Flag {
    fn new(park: Option<(Arc<Park>, usize)>) -> Arc<Self> {
        Arc::new(Self { woken: AtomicBool::new(false), wakes: AtomicU64::new(0), park })
    }
    fn wake(&self) {
        self.wakes.fetch_add(1, SeqCst);
        self.woken.store(true, SeqCst);
        if let Some((p, t)) = &self.park {
            p.notify(*t);
            linger();
        }
    }
}

/// Lets the thread that was just woken get ahead.
fn linger() {
    JITTER.with(|j| {
        let Ok(mut j) = j.try_borrow_mut() else { return };
        let Some(r) = j.as_mut() else { return };
        match r.below(4) {
            0 if cfg!(miri) => (0..r.below(20)).for_each(|_| std::thread::yield_now()),
            0 => std::thread::sleep(std::time::Duration::from_micros(r.below(200))),
            1 => std::thread::yield_now(),
            _ => {}
        }
    });
}

unsafe fn w_clone(p: *const ()) -> RawWaker {
    hook();
    Arc::increment_strong_count(p as *const Flag);
    hook();
    RawWaker::new(p, &VT)
}
unsafe fn w_wake(p: *const ()) {
    hook();
    Arc::from_raw(p as *const Flag).wake();
}
unsafe fn w_wake_ref(p: *const ()) {
    hook();
    (*(p as *const Flag)).wake();
}
unsafe fn w_drop(p: *const ()) {
    hook();
    drop(Arc::from_raw(p as *const Flag));
}
static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_ref, w_drop);

fn waker(f: &Arc<Flag>) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(Arc::into_raw(f.clone()) as *const (), &VT)) }
}

// ------------------------------------------------------------------ one thread, every step chosen

type Got<'p> = Result<PoolItem<'p, Item>, Failed>;
type Get<'p> = Pin<Box<dyn Future<Output = Got<'p>> + 'p>>;

struct Task<'p> {
    id: usize,
    fut: Get<'p>,
    flag: Arc<Flag>,
    polled: bool,
}

/// Drops a value as it happens to whoever panics.
pub fn while_panicking<T>(x: T) {
    let _ = catching(move || {
        let _x = x;
        std::panic::resume_unwind(Box::new("a user panics"));
    });
}

/// A panic that was not planned is the pool's.
fn unplanned(e: (String, String)) -> Result<(), Fail> {
    if e.0.is_empty() {
        Ok(())
    } else {
        violation("panic", format!("panic at {}: {}", e.0, e.1))
    }
}

pub fn world(limit: usize, sequential: bool) -> Arc<World> {
    Arc::new(World { book: Mutex::new(Book { limit, sequential, ..Default::default() }) })
}

pub fn sequential<const N: usize>(c: &mut Case, judge: Judge, steps: usize) -> CaseResult {
    let w = world(N, true);
    let pool: AsyncPool<Item, (), N> = AsyncPool::new(w.clone());
    let r = drive(c, judge, steps, &w, &pool, N);
    let left = lock(&w.book).alive.len();
    r?;
    let before = lock(&w.book).dropped;
    drop(pool);
    let b = lock(&w.book);
    if judge == Judge::Items {
        ensure!(b.alive.is_empty(), "item not dropped", "dropping the pool left {} of its {left} items alive", b.alive.len());
        ensure!(b.dropped - before == left as u64, "dropped twice", "dropping the pool dropped {} items, it had {left}", b.dropped - before);
        c.count("items dropped with the pool", left as u64);
    }
    items_ok(&b, judge)
}

fn items_ok(b: &Book, judge: Judge) -> CaseResult {
    if judge == Judge::Items {
        if let Some((sig, msg)) = b.bad.first() {
            return violation(sig, msg.clone());
        }
    }
    Ok(())
}

struct Run<'c, 'p> {
    c: &'c mut Case,
    judge: Judge,
    w: Arc<World>,
    n: usize,
    tasks: Vec<Task<'p>>,
    held: Vec<PoolItem<'p, Item>>,
    next_task: usize,
    stamp: u64,
}

impl<'p> Run<'_, 'p> {
    fn creating(&self, id: usize) -> bool {
        lock(&self.w.book).creating.values().any(|o| *o == id)
    }

    /// Items or slots nobody has.
    fn spare(&self) -> usize {
        let b = lock(&self.w.book);
        self.n.saturating_sub(self.held.len() + b.creating.len())
    }

    fn check(&mut self, what: &str) -> CaseResult {
        {
            let mut b = lock(&self.w.book);
            b.held = self.held.len();
            items_ok(&b, self.judge)?;
        }
        if self.judge == Judge::Progress {
            let waiting: Vec<&Task> = self.tasks.iter().filter(|t| t.polled && !self.creating(t.id)).collect();
            if !waiting.is_empty() && self.spare() > 0 {
                let woken = waiting.iter().any(|t| t.flag.woken.load(SeqCst));
                ensure!(
                    woken,
                    "waiter not woken",
                    "after {what}: {} waiting and {} available (of {}), but nobody is woken",
                    waiting.len(),
                    self.spare(),
                    self.n
                );
                self.c.count("states with a waiter and something available", 1);
            } else if !waiting.is_empty() {
                self.c.count("states with waiters and nothing available", 1);
            }
        }
        Ok(())
    }

    fn receive(&mut self, mut item: PoolItem<'p, Item>) -> CaseResult {
        self.c.count("items received", 1);
        let (id, val) = (item.id, item.val);
        let mut b = lock(&self.w.book);
        if self.judge == Judge::Items {
            ensure!(*item.canary == !id, "item altered", "an item handed over is damaged");
            ensure!(self.held.iter().all(|h| h.id != id), "item shared", "item {id} was given to two users");
            match b.alive.get(&id) {
                None => return violation("dropped item given out", format!("item {id} was handed over after it was dropped")),
                Some(v) => ensure!(*v == val, "item altered", "item {id} has value {val}, its last user wrote {v}"),
            }
            ensure!(self.held.len() < self.n, "too many items", "{} items given out by a pool of {}", self.held.len() + 1, self.n);
        }
        self.stamp += 1;
        if val != 0 {
            self.c.count("items reused", 1);
        }
        item.val = self.stamp;
        b.alive.insert(id, self.stamp);
        drop(b);
        self.held.push(item);
        lock(&self.w.book).held = self.held.len();
        Ok(())
    }

    /// Polls one task; a finished one is removed.
    fn poll(&mut self, i: usize, new_waker: bool) -> CaseResult {
        let id = self.tasks[i].id;
        lock(&self.w.book).cur = id;
        if new_waker {
            self.tasks[i].flag = Flag::new(None);
            self.c.count("polls with another waker", 1);
        }
        let t = &mut self.tasks[i];
        t.flag.woken.store(false, SeqCst);
        t.polled = true;
        let wk = waker(&t.flag);
        let fut = &mut t.fut;
        let r = catching(|| fut.as_mut().poll(&mut Context::from_waker(&wk)));
        drop(wk);
        match r {
            Err(e) => {
                unplanned(e)?;
                self.c.count("panicked creations", 1);
                self.c.note(format!("task {id}: creation panics"));
                let t = self.tasks.remove(i);
                drop(t);
            }
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(r)) => {
                let t = self.tasks.remove(i);
                let late = self.c.rng.coin();
                if late {
                    // the finished future may be dropped before or after its item is used
                    drop(t);
                    self.finish(id, r)?;
                } else {
                    self.finish(id, r)?;
                    drop(t);
                }
            }
        }
        Ok(())
    }

    fn finish(&mut self, id: usize, r: Got<'p>) -> CaseResult {
        match r {
            Ok(item) => {
                self.c.note(format!("task {id} gets item {}", item.id));
                self.receive(item)
            }
            Err(e) => {
                self.c.count("failed creations", 1);
                self.c.note(format!("task {id} gets {e:?}"));
                Ok(())
            }
        }
    }

    fn give_back(&mut self, i: usize, keep: bool) {
        let mut item = self.held.swap_remove(i);
        lock(&self.w.book).held = self.held.len();
        self.c.note(format!("item {} returned{}", item.id, if keep { "" } else { " unusable" }));
        item.keep = keep;
        self.c.count(if keep { "items returned" } else { "unusable items returned" }, 1);
        if self.c.rng.chance(1, 8) {
            self.c.count("items returned by users that panic", 1);
            while_panicking(item);
        } else {
            drop(item);
        }
    }

    fn release_gate(&mut self, id: u64) {
        let w = {
            let mut b = lock(&self.w.book);
            b.open.push(id);
            b.gates.get_mut(&id).and_then(|w| w.take())
        };
        if let Some(w) = w {
            w.wake();
        }
    }

    /// Polls only tasks that were woken, until nobody is.
    fn settle(&mut self) -> CaseResult {
        let mut left = 5000;
        loop {
            let woken: Vec<usize> =
                (0..self.tasks.len()).filter(|i| !self.tasks[*i].polled || self.tasks[*i].flag.woken.load(SeqCst)).collect();
            if woken.is_empty() {
                break;
            }
            left -= 1;
            if left == 0 {
                if self.judge == Judge::Progress {
                    return violation("waiters wake each other without end", "woken tasks never settle");
                }
                return Ok(());
            }
            let i = *self.c.rng.pick(&woken);
            self.poll(i, false)?;
            self.check("polling a woken task")?;
        }
        if self.judge == Judge::Progress {
            let asleep = self.tasks.iter().filter(|t| !self.creating(t.id)).count();
            ensure!(
                asleep == 0 || self.spare() == 0,
                "waiter sleeps",
                "everybody woken has run, {asleep} still wait although {} of {} are available",
                self.spare(),
                self.n
            );
            self.c.count("quiet states checked", 1);
        }
        Ok(())
    }
}

fn plan(rng: &mut Rng) -> Plan {
    let outcome = match rng.below(10) {
        0 | 1 => Outcome::Err,
        2 => Outcome::PanicInPoll,
        3 => Outcome::PanicInNew,
        _ => Outcome::Ok,
    };
    Plan { yields: if rng.coin() { 0 } else { rng.below(3) as u32 }, gate: rng.chance(1, 3), outcome }
}

fn drive<'p, const N: usize>(c: &mut Case, judge: Judge, steps: usize, w: &Arc<World>, pool: &'p AsyncPool<Item, (), N>, n: usize) -> CaseResult {
    let mut r = Run { c, judge, w: w.clone(), n, tasks: vec![], held: vec![], next_task: 1, stamp: 0 };
    // how hard the run presses, and how it is mixed
    let weights: Vec<u64> = (0..8).map(|_| 1 + r.c.rng.below(6)).collect();
    let total: u64 = weights.iter().sum();
    let most = n + 1 + r.c.rng.usize(6);
    let harsh = r.c.rng.coin();
    for _ in 0..steps {
        let mut k = r.c.rng.below(total);
        let op = weights.iter().position(|x| if k < *x { true } else { k -= x; false }).unwrap_or(0);
        r.c.feed(&op);
        let what = match op {
            0 | 1 => {
                if r.tasks.len() >= most {
                    continue;
                }
                let p = if harsh { plan(&mut r.c.rng) } else { Plan { yields: 0, gate: r.c.rng.chance(1, 4), outcome: Outcome::Ok } };
                lock(&w.book).plans = VecDeque::from([p]);
                let id = r.next_task;
                r.next_task += 1;
                r.c.note(format!("task {id} starts ({p:?})"));
                r.tasks.push(Task { id, fut: pool.get(), flag: Flag::new(None), polled: false });
                if r.c.rng.chance(4, 5) {
                    let i = r.tasks.len() - 1;
                    r.poll(i, false)?;
                }
                "starting"
            }
            2 => {
                if r.tasks.is_empty() {
                    continue;
                }
                let i = r.c.rng.usize(r.tasks.len());
                let t = r.tasks.remove(i);
                let kind = if !t.polled {
                    "cancelled before the first poll"
                } else if r.creating(t.id) {
                    "cancelled creations"
                } else if t.flag.woken.load(SeqCst) {
                    "cancelled after waking"
                } else {
                    "cancelled waiters"
                };
                r.c.count(kind, 1);
                r.c.note(format!("task {} {kind}", t.id));
                if r.c.rng.chance(1, 8) {
                    while_panicking(t);
                } else {
                    drop(t);
                }
                "cancelling"
            }
            3 => {
                if r.held.is_empty() {
                    continue;
                }
                let i = r.c.rng.usize(r.held.len());
                let keep = !r.c.rng.chance(1, 4);
                r.give_back(i, keep);
                "returning an item"
            }
            4 => {
                let ids: Vec<u64> = lock(&w.book).gates.keys().copied().collect();
                if ids.is_empty() {
                    continue;
                }
                let id = *r.c.rng.pick(&ids);
                r.release_gate(id);
                "opening a gate"
            }
            5 => {
                let woken: Vec<usize> = (0..r.tasks.len()).filter(|i| r.tasks[*i].flag.woken.load(SeqCst)).collect();
                if woken.is_empty() {
                    continue;
                }
                let i = *r.c.rng.pick(&woken);
                let nw = r.c.rng.chance(1, 4);
                let p = plan(&mut r.c.rng);
                lock(&w.book).plans = VecDeque::from([p]);
                r.poll(i, nw)?;
                "polling a woken task"
            }
            6 => {
                // spurious poll
                if r.tasks.is_empty() || r.c.rng.coin() {
                    continue;
                }
                let i = r.c.rng.usize(r.tasks.len());
                let nw = r.c.rng.coin();
                let p = plan(&mut r.c.rng);
                lock(&w.book).plans = VecDeque::from([p]);
                r.poll(i, nw)?;
                "a spurious poll"
            }
            _ => {
                if r.c.rng.coin() {
                    r.settle()?;
                }
                "settling"
            }
        };
        r.check(what)?;
    }
    r.settle()?;
    // the end: everything is given back, the capacity has to be whole again
    while !r.tasks.is_empty() || !r.held.is_empty() {
        if !r.tasks.is_empty() && r.c.rng.coin() {
            let i = r.c.rng.usize(r.tasks.len());
            drop(r.tasks.remove(i));
        } else if !r.held.is_empty() {
            let i = r.c.rng.usize(r.held.len());
            let keep = !r.c.rng.chance(1, 4);
            r.give_back(i, keep);
        }
        r.check("winding up")?;
    }
    lock(&w.book).plans.clear();
    for k in 0..=n {
        let flag = Flag::new(None);
        let wk = waker(&flag);
        let mut fut: Get = pool.get();
        let id = r.next_task;
        r.next_task += 1;
        lock(&w.book).cur = id;
        let res = match catching(|| fut.as_mut().poll(&mut Context::from_waker(&wk))) {
            Ok(r) => r,
            Err(e) => return unplanned(e),
        };
        match res {
            Poll::Ready(Ok(item)) => {
                if k == n && judge == Judge::Progress {
                    break;
                }
                r.receive(item)?
            }
            Poll::Ready(Err(e)) => return Err(Fail::Inconclusive(format!("unexpected {e:?}"))),
            Poll::Pending if k < n => {
                if judge == Judge::Progress {
                    return violation("capacity lost", format!("only {k} of {n} items can be taken at the end"));
                }
                break;
            }
            Poll::Pending => {}
        }
        drop(fut);
        r.check("taking everything")?;
    }
    r.c.count("histories", 1);
    let held = std::mem::take(&mut r.held);
    lock(&w.book).held = 0;
    drop(held);
    let b = lock(&w.book);
    items_ok(&b, judge)
}

// ------------------------------------------------------------------ many threads

/// Parking place of all threads of a run; notices when all of them sleep.
pub struct Park {
    state: Mutex<ParkState>,
    cv: Vec<Condvar>,
}

struct ParkState {
    notified: Vec<bool>,
    parked: Vec<bool>,
    done: Vec<bool>,
    dead: bool,
    parks: u64,
}

impl Park {
    fn new(n: usize) -> Arc<Self> {
        Arc::new(Self {
            state: Mutex::new(ParkState { notified: vec![false; n], parked: vec![false; n], done: vec![false; n], dead: false, parks: 0 }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
        })
    }

    fn notify(&self, t: usize) {
        let mut s = lock(&self.state);
        s.notified[t] = true;
        if s.parked[t] {
            self.cv[t].notify_one();
        }
    }

    fn look(&self, s: &mut ParkState) {
        let n = s.done.len();
        if (0..n).any(|t| !s.done[t]) && (0..n).all(|t| s.done[t] || (s.parked[t] && !s.notified[t])) {
            s.dead = true;
            for c in &self.cv {
                c.notify_one();
            }
        }
    }

    /// Sleeps until notified; false if everybody sleeps for good.
    fn park(&self, t: usize) -> bool {
        let mut s = lock(&self.state);
        s.parks += 1;
        s.parked[t] = true;
        if !s.notified[t] {
            self.look(&mut s);
        }
        while !s.notified[t] && !s.dead {
            s = self.cv[t].wait(s).unwrap_or_else(PoisonError::into_inner);
        }
        s.parked[t] = false;
        s.notified[t] = false;
        !s.dead
    }

    fn finish(&self, t: usize) {
        let mut s = lock(&self.state);
        s.done[t] = true;
        self.look(&mut s);
    }
}

#[derive(Default, Debug)]
pub struct Seen {
    pub received: u64,
    pub reused: u64,
    pub created: u64,
    pub cancelled: u64,
    pub failed: u64,
    pub parks: u64,
    pub waits: u64,
    pub max_alive: u64,
}

/// Several threads use one pool at full speed, with random delays wherever the pool calls back.
pub fn threads<const N: usize>(seed: u64, threads: usize, ops: usize, judge: Judge) -> Result<Seen, Fail> {
    let w = world(N, false);
    let pool: AsyncPool<Item, (), N> = AsyncPool::new(w.clone());
    let park = Park::new(threads);
    let owners: Mutex<HashMap<u64, usize>> = Mutex::new(HashMap::new());
    let users = AtomicI64::new(0);
    let results: Mutex<Vec<Result<Seen, Fail>>> = Mutex::new(vec![]);
    let start = std::sync::Barrier::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (pool, park, owners, users, results, w, start) = (&pool, &park, &owners, &users, &results, &w, &start);
            s.spawn(move || {
                let mut rng = Rng::new(&[seed, 77, t as u64]);
                let jitter = rng.chance(3, 4);
                JITTER.with(|j| *j.borrow_mut() = jitter.then(|| rng.fork()));
                start.wait();
                let r = catching(|| one_thread::<N>(&mut rng, t, ops, judge, pool, park, owners, users, w));
                JITTER.with(|j| *j.borrow_mut() = None);
                park.finish(t);
                let r = r.unwrap_or_else(|e| violation("panic", format!("panic at {}: {}", e.0, e.1)));
                lock(results).push(r);
            });
        }
    });
    let mut seen = Seen::default();
    for r in results.into_inner().unwrap_or_else(PoisonError::into_inner) {
        let r = r?;
        seen.received += r.received;
        seen.reused += r.reused;
        seen.cancelled += r.cancelled;
        seen.failed += r.failed;
        seen.waits += r.waits;
    }
    seen.parks = lock(&park.state).parks;
    // all users are gone: the capacity must be whole
    let flag = Flag::new(None);
    let wk = waker(&flag);
    lock(&w.book).plans.clear();
    let mut items = vec![];
    for k in 0..=N {
        let mut fut: Get = pool.get();
        match fut.as_mut().poll(&mut Context::from_waker(&wk)) {
            Poll::Ready(Ok(i)) => {
                ensure!(k < N || judge == Judge::Progress, "too many items", "{} items given out by a pool of {N}", k + 1);
                items.push(i)
            }
            Poll::Ready(Err(e)) => return Err(Fail::Inconclusive(format!("unexpected {e:?}"))),
            Poll::Pending => {
                ensure!(k >= N || judge == Judge::Items, "capacity lost", "only {k} of {N} items can be taken at the end");
            }
        }
    }
    drop(items);
    drop(wk);
    drop(pool);
    let b = lock(&w.book);
    seen.created = b.created;
    seen.max_alive = b.max_alive as u64;
    if judge == Judge::Items {
        ensure!(b.alive.is_empty(), "item not dropped", "dropping the pool left {} items alive", b.alive.len());
    }
    items_ok(&b, judge)?;
    Ok(seen)
}

#[allow(clippy::too_many_arguments)]
fn one_thread<'p, const N: usize>(
    rng: &mut Rng,
    t: usize,
    ops: usize,
    judge: Judge,
    pool: &'p AsyncPool<Item, (), N>,
    park: &Arc<Park>,
    owners: &Mutex<HashMap<u64, usize>>,
    users: &AtomicI64,
    w: &Arc<World>,
) -> Result<Seen, Fail> {
    let mut seen = Seen::default();
    let mut tasks: Vec<(Get<'p>, Arc<Flag>, u32)> = vec![];
    let mut done = 0;
    let many = rng.chance(1, 3);
    let cancels = rng.coin();
    let harsh = rng.coin();
    while done < ops || !tasks.is_empty() {
        let most = if many { 3 } else { 1 };
        while tasks.len() < most && done < ops {
            done += 1;
            let flag = Flag::new(Some((park.clone(), t)));
            flag.woken.store(true, SeqCst);
            let patience = if cancels && rng.chance(1, 3) { 1 + rng.below(3) as u32 } else { u32::MAX };
            tasks.push((pool.get(), flag, patience));
        }
        let Some(i) = tasks.iter().position(|t| t.1.woken.load(SeqCst)) else {
            // holding nothing: sleep
            seen.waits += 1;
            if !park.park(t) {
                return if judge == Judge::Progress {
                    violation("everybody sleeps", format!("all threads wait for an item of a pool of {N} and nobody has one"))
                } else {
                    // not what this run is about
                    Ok(seen)
                };
            }
            continue;
        };
        if harsh && rng.chance(1, 4) {
            let mut p = plan(rng);
            p.gate = false;
            lock(&w.book).plans.push_back(p);
        }
        let (fut, flag, patience) = &mut tasks[i];
        flag.woken.store(false, SeqCst);
        let wk = waker(flag);
        let r = catching(|| fut.as_mut().poll(&mut Context::from_waker(&wk)));
        drop(wk);
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                unplanned(e)?;
                seen.failed += 1;
                drop(tasks.remove(i));
                continue;
            }
        };
        match r {
            Poll::Pending => {
                *patience -= 1;
                if *patience == 0 {
                    seen.cancelled += 1;
                    drop(tasks.remove(i));
                }
            }
            Poll::Ready(Err(_)) => {
                seen.failed += 1;
                drop(tasks.remove(i));
            }
            Poll::Ready(Ok(mut item)) => {
                drop(tasks.remove(i));
                seen.received += 1;
                let id = item.id;
                let other = lock(owners).insert(id, t);
                let now = users.fetch_add(1, SeqCst) + 1;
                if judge == Judge::Items {
                    ensure!(other.is_none(), "item shared", "item {id} is held by threads {t} and {other:?}");
                    ensure!(now <= N as i64, "too many items", "{now} items held of a pool of {N}");
                    let b = lock(&w.book);
                    match b.alive.get(&id) {
                        None => return violation("dropped item given out", format!("item {id} was dropped before")),
                        Some(v) => ensure!(*v == item.val && *item.canary == !id, "item altered", "item {id} has value {}, its last user wrote {v}", item.val),
                    }
                }
                if item.val > 0 {
                    seen.reused += 1;
                }
                item.val += 1;
                lock(&w.book).alive.insert(id, item.val);
                match rng.below(4) {
                    0 => std::thread::yield_now(),
                    1 => {
                        for _ in 0..rng.below(if cfg!(miri) { 4 } else { 3000 }) {
                            std::hint::spin_loop();
                        }
                    }
                    _ => {}
                }
                item.keep = !rng.chance(1, 10);
                users.fetch_sub(1, SeqCst);
                lock(owners).remove(&id);
                if rng.chance(1, 12) {
                    while_panicking(item);
                } else {
                    drop(item);
                }
            }
        }
    }
    Ok(seen)
}

// ------------------------------------------------------------------ several waiters in one task

/// Tasks that wait for several items at once: all their futures are polled with the same waker.
pub fn joined<const N: usize>(c: &mut Case, steps: usize) -> CaseResult {
    struct Sub<'p> {
        id: usize,
        group: usize,
        fut: Get<'p>,
    }
    let w = world(N, false);
    let pool: AsyncPool<Item, (), N> = AsyncPool::new(w.clone());
    let flags: Vec<Arc<Flag>> = (0..1 + c.rng.usize(3)).map(|_| Flag::new(None)).collect();
    let mut subs: Vec<Sub> = vec![];
    let mut held: Vec<PoolItem<Item>> = vec![];
    let mut next = 1;
    let quiet = 20 + steps;
    for step in 0..steps + quiet {
        // at the end, only what was woken is polled
        let winding = step >= steps;
        let mut polls: Vec<usize> = vec![];
        match if winding { 4 } else { c.rng.below(6) } {
            0 | 1 if subs.len() < N + 5 => {
                let p = plan(&mut c.rng);
                let outcome = if p.outcome == Outcome::Err { Outcome::Err } else { Outcome::Ok };
                lock(&w.book).plans = VecDeque::from([Plan { yields: 0, gate: false, outcome }]);
                let group = c.rng.usize(flags.len());
                subs.push(Sub { id: next, group, fut: pool.get() });
                polls.push(next);
                c.note(format!("waiter {next} of task {group}"));
                next += 1;
            }
            2 if !subs.is_empty() => {
                let i = c.rng.usize(subs.len());
                let s = subs.swap_remove(i);
                c.note(format!("waiter {} of task {} is cancelled", s.id, s.group));
                c.count("joined: cancelled", 1);
                drop(s);
            }
            3 if !held.is_empty() => {
                let i = c.rng.usize(held.len());
                let mut item = held.swap_remove(i);
                item.keep = !c.rng.chance(1, 4);
                c.note(format!("item {} returned", item.id));
                drop(item);
            }
            4 => {
                let woken: Vec<usize> = (0..flags.len()).filter(|g| flags[*g].woken.load(SeqCst)).collect();
                if woken.is_empty() {
                    if winding {
                        break;
                    }
                    continue;
                }
                let g = *c.rng.pick(&woken);
                flags[g].woken.store(false, SeqCst);
                polls = subs.iter().filter(|s| s.group == g).map(|s| s.id).collect();
                if c.rng.coin() {
                    polls.reverse();
                }
            }
            _ => continue,
        }
        c.feed(&polls.len());
        for id in polls {
            let Some(i) = subs.iter().position(|s| s.id == id) else { continue };
            let wk = waker(&flags[subs[i].group]);
            let res = match catching(|| subs[i].fut.as_mut().poll(&mut Context::from_waker(&wk))) {
                Ok(r) => r,
                Err(e) => return unplanned(e),
            };
            match res {
                Poll::Pending => c.count("joined: waits", 1),
                Poll::Ready(r) => {
                    subs.swap_remove(i);
                    if let Ok(item) = r {
                        c.note(format!("waiter {id} gets item {}", item.id));
                        c.count("joined: items received", 1);
                        held.push(item);
                    }
                }
            }
        }
        if !subs.is_empty() && held.len() < N {
            ensure!(
                subs.iter().any(|s| flags[s.group].woken.load(SeqCst)),
                "waiter not woken",
                "{} waiters (some share a task) and {} of {N} available, but no task is woken",
                subs.len(),
                N - held.len()
            );
            c.count("joined: states with a waiter and something available", 1);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ wakers that use the pool themselves

#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Nothing,
    /// drop the future that waits (an executor that has shut down)
    Cancel,
    /// poll it at once (an executor that runs tasks where they are woken)
    Poll,
}

struct Inline {
    wake: Act,
    last: Act,
    fut: Mutex<Option<Get<'static>>>,
    plain: Arc<Flag>,
    got: Mutex<Vec<Got<'static>>>,
}

// SAFETY: only used by the thread that made it
unsafe impl Send for Inline {}
unsafe impl Sync for Inline {}

impl Inline {
    fn act(&self, a: Act) {
        let f = if a == Act::Nothing { None } else { lock(&self.fut).take() };
        if let (Some(mut f), Act::Poll) = (f, a) {
            let wk = waker(&self.plain);
            match f.as_mut().poll(&mut Context::from_waker(&wk)) {
                Poll::Ready(r) => lock(&self.got).push(r),
                Poll::Pending => *lock(&self.fut) = Some(f),
            }
        }
    }
}

impl std::task::Wake for Inline {
    fn wake(self: Arc<Self>) {
        self.act(self.wake)
    }
}

struct Last(Arc<Inline>);

impl std::task::Wake for Last {
    fn wake(self: Arc<Self>) {
        self.0.act(self.0.wake)
    }
}

impl Drop for Last {
    fn drop(&mut self) {
        self.0.act(self.0.last)
    }
}

fn reentrant_run(seed: u64) -> Result<(), String> {
    let mut r = Rng::new(&[seed]);
    let w = world(1, false);
    let pool: &'static AsyncPool<Item, (), 1> = Box::leak(Box::new(AsyncPool::new(w.clone())));
    let flag = Flag::new(None);
    let wk = waker(&flag);
    let mut first: Get<'static> = pool.get();
    let Poll::Ready(Ok(mut item)) = first.as_mut().poll(&mut Context::from_waker(&wk)) else { return Err("no item at once".into()) };
    let acts = [Act::Nothing, Act::Cancel, Act::Poll];
    let cells: Vec<Arc<Inline>> = (0..1 + r.usize(3))
        .map(|_| {
            let (wake, last) = (*r.pick(&acts), *r.pick(&acts));
            Arc::new(Inline { wake, last, fut: Mutex::new(None), plain: Flag::new(None), got: Default::default() })
        })
        .collect();
    for (i, c) in cells.iter().enumerate() {
        let mut f: Get<'static> = pool.get();
        // whoever wakes or drops this waker meets the waiter of this one or another
        let other = cells[(i + r.usize(2)) % cells.len()].clone();
        let wk: Waker = if r.coin() { Waker::from(other) } else { Waker::from(Arc::new(Last(other))) };
        if f.as_mut().poll(&mut Context::from_waker(&wk)).is_ready() {
            return Err("an item is given out twice".into());
        }
        let old = lock(&c.fut).replace(f);
        drop(old);
    }
    match r.below(4) {
        0 => {
            // cancelled, or polled with another waker, before the item comes back
            let f = lock(&cells[0].fut).take();
            if let Some(mut f) = f {
                if r.coin() {
                    let again = f.as_mut().poll(&mut Context::from_waker(&wk)).is_ready();
                    if again {
                        return Err("an item is given out twice".into());
                    }
                }
                drop(f);
            }
            drop(item);
        }
        n => {
            item.keep = n > 1;
            drop(item);
        }
    }
    for c in &cells {
        let f = lock(&c.fut).take();
        drop(f);
        let g = std::mem::take(&mut *lock(&c.got));
        drop(g);
    }
    let mut end: Get<'static> = pool.get();
    match end.as_mut().poll(&mut Context::from_waker(&wk)) {
        Poll::Ready(Ok(_)) => {}
        _ => return Err("the item cannot be taken at the end".into()),
    }
    drop((first, end));
    // SAFETY: every future and item is gone
    drop(unsafe { Box::from_raw(pool as *const _ as *mut AsyncPool<Item, (), 1>) });
    Ok(())
}

/// Wakers run or drop other users of the pool where they are woken or dropped.
pub fn reentrant(c: &mut Case) -> CaseResult {
    let seed = c.rng.u64();
    let (tx, rx) = std::sync::mpsc::channel();
    let t = std::thread::spawn(move || {
        let r = catching(|| reentrant_run(seed));
        let _ = tx.send(r);
    });
    c.feed(&seed);
    match rx.recv_timeout(std::time::Duration::from_secs(120)) {
        Ok(Ok(Ok(()))) => {
            let _ = t.join();
            c.count("wakers that use the pool", 1);
            Ok(())
        }
        Ok(Ok(Err(e))) => violation("wakers that use the pool", e),
        Ok(Err(e)) => unplanned(e),
        Err(_) => violation("deadlock", "a waker that uses the pool when it is woken or dropped never returns"),
    }
}
