//! Driving the sync pool.
use {
    crate::{
        ensure,
        rng::Rng,
        runner::{alloc, catching, violation, Case, CaseResult, Fail},
    },
    mysql_connector::pool::{PoolItem, SyncPool, SyncPoolContent, VecPoolCtx},
    std::{
        collections::{HashMap, HashSet},
        fmt,
        sync::{
            atomic::{AtomicI64, AtomicU64, Ordering::SeqCst},
            Arc, Mutex, MutexGuard, PoisonError,
        },
    },
};

fn lock<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(PoisonError::into_inner)
}

// ------------------------------------------------------------------ contents whose drops are counted

#[derive(Default)]
pub struct Shop {
    next: AtomicU64,
    alive: Mutex<HashSet<u64>>,
    bad: Mutex<Vec<(String, String)>>,
    bufs: AtomicI64,
    news: AtomicU64,
    resets: AtomicU64,
    dropped: AtomicU64,
}

impl fmt::Debug for Shop {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Shop")
    }
}

impl Shop {
    fn bad(&self, sig: &str, msg: String) {
        lock(&self.bad).push((sig.into(), msg));
    }
    fn ok(&self) -> CaseResult {
        match lock(&self.bad).first() {
            Some((s, m)) => violation(s, m.clone()),
            None => Ok(()),
        }
    }
    fn tok(self: &Arc<Self>, explode: bool) -> Tok {
        let id = self.next.fetch_add(1, SeqCst);
        lock(&self.alive).insert(id);
        Tok { id, canary: Box::new(!id), shop: self.clone(), explode }
    }
}

/// Something left in a buffer.
pub struct Tok {
    id: u64,
    canary: Box<u64>,
    shop: Arc<Shop>,
    explode: bool,
}

impl Drop for Tok {
    fn drop(&mut self) {
        self.shop.dropped.fetch_add(1, SeqCst);
        if *self.canary != !self.id || !lock(&self.shop.alive).remove(&self.id) {
            self.shop.bad("dropped twice", format!("element {} was dropped twice", self.id));
        }
        if self.explode && !std::thread::panicking() {
            std::panic::resume_unwind(Box::new("planned"));
        }
    }
}

pub struct Buf {
    id: u64,
    data: Vec<Tok>,
    clean: bool,
    last: u64,
    shop: Arc<Shop>,
}

impl SyncPoolContent for Buf {
    type Ctx = Arc<Shop>;

    fn new(ctx: &Self::Ctx) -> Self {
        ctx.bufs.fetch_add(1, SeqCst);
        let id = ctx.news.fetch_add(1, SeqCst);
        Buf { id, data: vec![], clean: true, last: 0, shop: ctx.clone() }
    }

    fn reset(&mut self, ctx: &Self::Ctx) {
        if !Arc::ptr_eq(ctx, &self.shop) {
            ctx.bad("context", "reset was called with another context".into());
        }
        ctx.resets.fetch_add(1, SeqCst);
        self.data.clear();
        self.clean = true;
    }
}

impl Drop for Buf {
    fn drop(&mut self) {
        self.shop.bufs.fetch_sub(1, SeqCst);
    }
}

// ------------------------------------------------------------------ one thread

struct Shared<'p, const N: usize> {
    pool: &'p SyncPool<Buf, N>,
    shop: Arc<Shop>,
    /// id → stamp of the last user
    stamps: HashMap<u64, u64>,
}

impl<'p, const N: usize> Shared<'p, N> {
    fn take(&mut self, held: &[PoolItem<'p, Buf>], c: &mut Case) -> Result<PoolItem<'p, Buf>, Fail> {
        let item = self.pool.get();
        ensure!(item.clean && item.data.is_empty(), "dirty item", "item {} still has {} elements of its last user", item.id, item.data.len());
        ensure!(held.iter().all(|h| h.id != item.id), "item shared", "item {} was given to two users", item.id);
        match self.stamps.get(&item.id) {
            Some(s) => {
                ensure!(item.last == *s, "item altered", "item {} is not the one that was returned", item.id);
                c.count("items reused", 1);
            }
            None => c.count("items created", 1),
        }
        Ok(item)
    }
}

pub fn sequential<const N: usize>(c: &mut Case) -> CaseResult {
    let shop: Arc<Shop> = Default::default();
    let pool: SyncPool<Buf, N> = SyncPool::new(shop.clone());
    let mut p = Shared { pool: &pool, shop: shop.clone(), stamps: HashMap::new() };
    let mut held: Vec<PoolItem<Buf>> = vec![];
    let steps = 5 + c.rng.usize(100);
    let most = 1 + c.rng.usize(N + 4);
    let mut stamp = 0;
    for _ in 0..steps {
        let op = c.rng.below(5);
        c.feed(&op);
        match op {
            0 | 1 if held.len() < most => {
                let mut item = p.take(&held, c)?;
                item.clean = false;
                held.push(item);
            }
            2 if !held.is_empty() => {
                let i = c.rng.usize(held.len());
                let n = c.rng.usize(5);
                for _ in 0..n {
                    let t = shop.tok(false);
                    held[i].data.push(t);
                }
            }
            3 | 4 if !held.is_empty() => {
                let i = c.rng.usize(held.len());
                let mut item = held.swap_remove(i);
                stamp += 1;
                item.last = stamp;
                p.stamps.insert(item.id, stamp);
                let left: Vec<u64> = item.data.iter().map(|t| t.id).collect();
                let explode = !left.is_empty() && c.rng.chance(1, 20);
                if explode {
                    let j = c.rng.usize(item.data.len());
                    item.data[j].explode = true;
                }
                let id = item.id;
                let r = catching(move || drop(item));
                if let Err((loc, msg)) = r {
                    ensure!(loc.is_empty(), "panic", "panic at {loc}: {msg}");
                    c.count("returns with a panicking element", 1);
                }
                let a = lock(&p.shop.alive);
                ensure!(left.iter().all(|t| !a.contains(t)), "contents not dropped", "item {id} was returned, its {} elements still exist", left.len());
                c.count("contents dropped on return", left.len() as u64);
            }
            _ => continue,
        }
        shop.ok()?;
        let n = shop.bufs.load(SeqCst);
        ensure!(n <= (N + held.len()) as i64, "pool grows", "{n} items exist, {} of them held, although the pool keeps {N}", held.len());
        if held.len() > N {
            c.count("states with more users than kept items", 1);
        }
    }
    while let Some(h) = held.pop() {
        drop(h);
    }
    drop(held);
    let n = shop.bufs.load(SeqCst);
    ensure!(n <= N as i64, "pool grows", "{n} items are kept by a pool of {N}");
    drop(pool);
    shop.ok()?;
    ensure!(shop.bufs.load(SeqCst) == 0, "item leaked", "{} items are left after the pool was dropped", shop.bufs.load(SeqCst));
    ensure!(lock(&shop.alive).is_empty(), "contents leaked", "{} elements are left", lock(&shop.alive).len());
    Ok(())
}

/// Byte buffers: emptiness, capacity, memory kept.
pub fn vectors<const N: usize>(c: &mut Case) -> CaseResult {
    let cap = *c.rng.pick(&[0usize, 1, 7, 64, 1000, 4096, 100_000]);
    let init = match c.rng.below(3) {
        0 => 0,
        1 => c.rng.usize(cap + 1),
        _ => c.rng.usize(5000),
    };
    alloc::reset();
    let pool: SyncPool<Vec<u8>, N> = SyncPool::new(VecPoolCtx { size_cap: cap, init_size: init });
    let base = alloc::live();
    let most = cap.max(init);
    let mut held: Vec<(PoolItem<Vec<u8>>, Vec<u8>)> = Vec::with_capacity(64);
    let own = alloc::live();
    let steps = 5 + c.rng.usize(60);
    c.note(format!("pool of {N}, cap {cap}, init {init}"));
    for _ in 0..steps {
        let op = c.rng.below(6);
        c.feed(&(op, cap, init));
        match op {
            0..=1 if held.len() < N + 3 => {
                let item = pool.get();
                ensure!(item.is_empty(), "dirty item", "a buffer still has {} bytes of its last user", item.len());
                ensure!(
                    item.capacity() <= most,
                    "capacity not shrunk",
                    "a buffer has capacity {} (cap {cap}, initially {init})",
                    item.capacity()
                );
                c.count("buffers taken", 1);
                held.push((item, vec![]));
            }
            2..=3 if !held.is_empty() => {
                let i = c.rng.usize(held.len());
                let n = match c.rng.below(4) {
                    0 => cap + 1 + c.rng.usize(2 * cap + 10),
                    1 => cap,
                    _ => c.rng.usize(200),
                };
                let b = c.rng.bytes(n.min(300));
                let (item, copy) = &mut held[i];
                if c.rng.coin() {
                    item.resize(n, 7);
                    copy.resize(n, 7);
                } else {
                    item.extend_from_slice(&b);
                    copy.extend_from_slice(&b);
                }
                if item.capacity() > cap {
                    c.count("buffers grown past the cap", 1);
                }
            }
            _ if !held.is_empty() => {
                let i = c.rng.usize(held.len());
                let (item, copy) = held.swap_remove(i);
                ensure!(*item == copy, "buffer altered", "a held buffer does not have what its user wrote");
                drop(item);
                c.count("buffers returned", 1);
            }
            _ => {}
        }
        for (item, copy) in &held {
            ensure!(**item == *copy, "buffer altered", "a held buffer does not have what its user wrote");
        }
    }
    while let Some((item, copy)) = held.pop() {
        ensure!(*item == copy, "buffer altered", "a held buffer does not have what its user wrote");
        drop(item);
        drop(copy);
    }
    c.trace.clear();
    let kept = alloc::live() - own;
    let _ = base;
    // counters of the case itself take a little
    let allowed = (N * cap) as isize + 4096;
    if cfg!(not(any(miri, feature = "plainalloc"))) {
        ensure!(kept <= allowed, "memory kept", "{kept} bytes are kept by {N} idle buffers of at most {cap}");
    }
    drop(held);
    // what is idle now is shrunk
    let mut all = vec![];
    for _ in 0..N {
        all.push(pool.get());
    }
    for a in &all {
        ensure!(a.is_empty() && a.capacity() <= most, "capacity not shrunk", "a buffer has capacity {} and length {}", a.capacity(), a.len());
    }
    Ok(())
}

// ------------------------------------------------------------------ many threads

pub fn threads<const N: usize>(seed: u64, threads: usize, ops: usize) -> Result<(u64, u64), Fail> {
    let shop: Arc<Shop> = Default::default();
    let pool: SyncPool<Buf, N> = SyncPool::new(shop.clone());
    let owners: Vec<AtomicU64> = (0..4096).map(|_| AtomicU64::new(0)).collect();
    let stamps: Vec<AtomicU64> = (0..4096).map(|_| AtomicU64::new(0)).collect();
    let taken = AtomicU64::new(0);
    let results: Mutex<Vec<CaseResult>> = Mutex::new(vec![]);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (pool, shop, owners, stamps, taken, results) = (&pool, &shop, &owners, &stamps, &taken, &results);
            s.spawn(move || {
                let mut rng = Rng::new(&[seed, 5, t as u64]);
                let r = catching(|| -> CaseResult {
                    let mut held: Vec<PoolItem<Buf>> = vec![];
                    for _ in 0..ops {
                        if held.len() < 3 && rng.coin() {
                            let mut item = pool.get();
                            taken.fetch_add(1, SeqCst);
                            let k = item.id as usize % 4096;
                            ensure!(item.clean && item.data.is_empty(), "dirty item", "item {} has {} elements of its last user", item.id, item.data.len());
                            if item.id < 4096 {
                                let other = owners[k].swap(t as u64 + 1, SeqCst);
                                ensure!(other == 0, "item shared", "item {} is held by threads {t} and {}", item.id, other - 1);
                                let st = stamps[k].load(SeqCst);
                                ensure!(item.last == st, "item altered", "item {} has stamp {}, its last user wrote {st}", item.id, item.last);
                            }
                            item.clean = false;
                            for _ in 0..rng.below(3) {
                                let tok = shop.tok(false);
                                item.data.push(tok);
                            }
                            held.push(item);
                        } else if !held.is_empty() {
                            let i = rng.usize(held.len());
                            let mut item = held.swap_remove(i);
                            item.last += 1;
                            if item.id < 4096 {
                                let k = item.id as usize;
                                stamps[k].store(item.last, SeqCst);
                                owners[k].store(0, SeqCst);
                            }
                            drop(item);
                        }
                    }
                    for item in &mut held {
                        if item.id < 4096 {
                            item.last += 1;
                            stamps[item.id as usize].store(item.last, SeqCst);
                            owners[item.id as usize].store(0, SeqCst);
                        }
                    }
                    Ok(())
                });
                let r = r.unwrap_or_else(|e| violation("panic", format!("panic at {}: {}", e.0, e.1)));
                lock(results).push(r);
            });
        }
    });
    for r in results.into_inner().unwrap_or_else(PoisonError::into_inner) {
        r?;
    }
    shop.ok()?;
    let n = shop.bufs.load(SeqCst);
    ensure!(n <= N as i64, "pool grows", "{n} items are kept by a pool of {N}");
    ensure!(lock(&shop.alive).is_empty(), "contents not dropped", "{} elements of returned buffers exist", lock(&shop.alive).len());
    drop(pool);
    shop.ok()?;
    ensure!(shop.bufs.load(SeqCst) == 0, "item leaked", "{} items are left after the pool was dropped", shop.bufs.load(SeqCst));
    Ok((taken.load(SeqCst), shop.news.load(SeqCst)))
}
