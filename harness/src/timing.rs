//! C16, with the `time` feature (bin c16) and with a `sleep` function of the user (bin c16n).
use {
    crate::{
        brief,
        kit::*,
        ensure,
        script::{self, same_ev, Ev, Scripted, Shape, Step},
        server::{once, Server},
        stream::{Fault, IoPlan, Item, Link, Peer, PeerIo, Pos},
        violation, Case, CaseResult, Chunk, Fail, Rng,
    },
    mysql_connector::Connection,
    std::{
        future::Future,
        io::ErrorKind,
        pin::Pin,
        sync::Arc,
        task::{Context, Poll},
        time::Duration,
    },
    tokio::time::Instant,
};

#[cfg(not(feature = "full"))]
pub mod custom {
    use std::{cell::RefCell, time::Duration};

    thread_local! {
        pub static ASKED: RefCell<Vec<Duration>> = const { RefCell::new(Vec::new()) };
    }

    pub fn sleep(d: Duration) -> mysql_connector::TimeoutFuture {
        ASKED.with(|a| a.borrow_mut().push(d));
        Box::pin(tokio::time::sleep(d))
    }
}

fn prepare(o: &mut Opts) {
    #[cfg(not(feature = "full"))]
    {
        o.sleep = Some(&custom::sleep);
        custom::ASKED.with(|a| a.borrow_mut().clear());
    }
    let _ = o;
}

/// The user's function has to be asked for the configured timeout, each time.
fn asked(c: &mut Case, timeout: Duration, stalled: bool) -> CaseResult {
    #[cfg(not(feature = "full"))]
    {
        let l = custom::ASKED.with(|a| std::mem::take(&mut *a.borrow_mut()));
        ensure!(!stalled || !l.is_empty(), "sleep", "the sleep function was never called");
        if let Some(x) = l.iter().find(|x| **x != timeout) {
            return violation("sleep", format!("the sleep function was called with {x:?}, configured is {timeout:?}"));
        }
        c.count("calls of the user's sleep", l.len() as u64);
    }
    let _ = (c, timeout, stalled);
    Ok(())
}

/// Delays the packets of a server.
struct Slow {
    inner: Box<dyn Peer>,
    r: Rng,
    max: Duration,
    chance: u64,
    total: Arc<std::sync::Mutex<Duration>>,
}

impl Slow {
    fn pass(&mut self, io: &mut PeerIo, before: usize) {
        let items: Vec<Item> = io.q.drain(before..).collect();
        for it in items {
            if matches!(it, Item::Bytes(..)) && self.r.chance(self.chance, 10) {
                // either almost the whole timeout or anything
                let f = if self.r.coin() { 1.0 } else { self.r.below(1000) as f64 / 1000.0 };
                let d = self.max.mul_f64(f);
                *crate::lock(&self.total) += d;
                io.delay(d);
            }
            io.item(it);
        }
    }
}

impl Peer for Slow {
    fn start(&mut self, io: &mut PeerIo) {
        let n = io.q.len();
        self.inner.start(io);
        self.pass(io, n);
    }
    fn packet(&mut self, io: &mut PeerIo, pkt: Vec<u8>) {
        let n = io.q.len();
        self.inner.packet(io, pkt);
        self.pass(io, n);
    }
}

/// Notes when events appear.
struct Stamped<'a, F> {
    f: Pin<Box<F>>,
    evs: *const Vec<Ev>,
    stamps: &'a mut Vec<Duration>,
    start: Instant,
}

impl<F: Future> Future for Stamped<'_, F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let r = self.f.as_mut().poll(cx);
        // SAFETY: the future that owns the reference to the list is not running
        let n = unsafe { (*self.evs).len() };
        let t = self.start.elapsed();
        let n = n.max(self.stamps.len());
        self.stamps.resize(n, t);
        r
    }
}

/// A busy task: once it has nothing to do it is not looked at for a while.
struct Late<F> {
    f: Pin<Box<F>>,
    hold: Option<Pin<Box<tokio::time::Sleep>>>,
    by: Option<Duration>,
}

impl<F: Future> Future for Late<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        loop {
            if let Some(h) = &mut self.hold {
                std::task::ready!(h.as_mut().poll(cx));
                self.hold = None;
            }
            match (self.f.as_mut().poll(cx), self.by) {
                (Poll::Pending, Some(by)) => self.hold = Some(Box::pin(tokio::time::sleep(by))),
                (r, _) => return r,
            }
        }
    }
}

struct Setup {
    steps: Vec<Step>,
    plan: IoPlan,
    timeout: Duration,
    dep: bool,
    limit: bool,
    seed: u64,
}

impl Setup {
    fn random(r: &mut Rng) -> Self {
        let sh = Shape { max_bytes: 80, max_cols: 3, max_rows: 3, bad_rows: 10, ..Default::default() };
        let n = r.range(0, 4);
        let steps = (1..=n).map(|t| script::step(r, &sh, t)).collect();
        let mut plan = IoPlan::random(r);
        plan.need_flush = r.chance(1, 4);
        if r.chance(1, 3) {
            plan.rchunk = *r.pick(&[Chunk::One, Chunk::Upto(3), Chunk::Upto(20)]);
            plan.wchunk = *r.pick(&[Chunk::One, Chunk::Upto(3), Chunk::Upto(20)]);
        }
        let timeout = match r.below(5) {
            0 => Duration::from_secs(10),
            1 => Duration::from_millis(r.range(1, 50)),
            2 => Duration::from_millis(r.range(50, 5000)),
            3 => Duration::from_secs(r.range(1, 3600)),
            _ => Duration::from_micros(r.range(1000, 10_000_000)),
        };
        Self { steps, plan, timeout, dep: r.chance(2, 3), limit: r.coin(), seed: r.u64() }
    }

    /// A server, and the options to reach it.
    fn start(&self, plan: IoPlan, slow: Option<(Duration, Arc<std::sync::Mutex<Duration>>)>) -> (Link, Opts) {
        let mut r = Rng::new(&[self.seed]);
        let mut srv = Server::new(Scripted::new(&self.steps));
        if !self.dep {
            srv.greeting.caps &= !crate::caps::DEPRECATE_EOF;
        }
        let mut o = opts(Default::default());
        #[cfg(feature = "full")]
        if r.coin() {
            use crate::auth::*;
            let plugin = *r.pick(&Plugin::ALL);
            let key = key_bits(1024).clone();
            let n = nonce(&mut r);
            let cfg = AuthCfg {
                user: "user".into(),
                pass: "password".into(),
                plugin,
                full: r.coin(),
                force_switch: r.coin(),
                nonce: n.clone(),
                switch_nonce: nonce(&mut r),
                switch_nul: true,
                secure: false,
                pem: random_pem(&mut r, &key),
                key,
                deny: Deny::No,
                error: crate::gen::err(&mut r),
                ok: crate::OkSpec { status: 2, ..Default::default() },
            };
            srv.greeting.nonce = n;
            srv = srv.login(AuthServer::new(cfg).0);
            o.password = "password".into();
            o.auth_plugin = None;
            o.allow_cleartext_password = true;
        }
        let peer: Box<dyn Peer> = match slow {
            None => Box::new(srv),
            Some((max, total)) => Box::new(Slow { inner: Box::new(srv), chance: r.range(1, 10), r: r.fork(), max, total }),
        };
        let link = Link::new(peer, plan);
        o.connection = once(link.clone());
        o.timeout = self.timeout;
        if self.limit {
            o.max_allowed_packet = None;
        }
        prepare(&mut o);
        (link, o)
    }

    /// Everything that is observed, with the times.
    fn run(&self, o: Opts, idle: Option<Duration>, late: Option<Duration>) -> Result<(Vec<Ev>, Vec<Duration>, Duration), Fail> {
        let mut evs: Vec<Ev> = Vec::new();
        let mut stamps = Vec::new();
        let p: *const Vec<Ev> = &evs;
        let end = {
            let evs = &mut evs;
            let stamps = &mut stamps;
            drive("session", async move {
                let start = Instant::now();
                let f = Box::pin(async move {
                    let mut conn = match Connection::connect(Arc::new(o)).await {
                        Ok(c) => {
                            evs.push(Ev::Started);
                            c
                        }
                        Err(e) => {
                            evs.push(Ev::Err(kind(&e)));
                            return;
                        }
                    };
                    for st in &self.steps {
                        if let Some(d) = idle {
                            tokio::time::sleep(d).await;
                        }
                        script::perform(&mut conn, st, evs).await;
                    }
                    evs.push(match conn.disconnect().await {
                        Ok(()) => Ev::Started,
                        Err(e) => Ev::Err(kind(&e)),
                    });
                });
                let f = Box::pin(Stamped { f, evs: p, stamps, start });
                Late { f, hold: None, by: late }.await;
                Ok(start.elapsed())
            })?
        };
        Ok((evs, stamps, end))
    }
}

/// No progress from some point on: exactly one timeout later the pending call fails.
pub fn stalls(c: &mut Case) -> CaseResult {
    let mut s = Setup::random(&mut c.rng);
    match c.rng.below(12) {
        0 => s.timeout = Duration::from_micros(c.rng.range(1, 1000)),
        1 => s.timeout = Duration::from_secs(c.rng.range(3600, 3 * 86_400)) + Duration::from_nanos(c.rng.below(1_000_000_000)),
        2 => {
            // as good as none
            let t = std::mem::replace(&mut s.timeout, Duration::MAX);
            let (_, o) = s.start(s.plan.clone(), None);
            let (evs, _, _) = s.run(o, None, None)?;
            asked(c, s.timeout, false)?;
            ensure!(
                !evs.iter().any(|e| matches!(e, Ev::Err(Kind::Io(ErrorKind::TimedOut)))),
                "false timeout",
                "the longest possible timeout passed at once"
            );
            s.timeout = t;
            c.count("sessions without a bound", 1);
        }
        _ => {}
    }
    let (link, o) = s.start(s.plan.clone(), None);
    let (clean, _, t) = s.run(o, None, None)?;
    asked(c, s.timeout, false)?;
    ensure!(t.is_zero(), "slow", "a session with a prompt server takes {t:?}");
    let (rd, wr, fl) = {
        let l = link.lock();
        (l.delivered, l.written, l.flush_calls)
    };
    let pos = match c.rng.below(8) {
        0..=3 => Pos::Read(c.rng.below(rd)),
        4 | 5 if wr > 0 => Pos::Write(c.rng.below(wr)),
        _ if fl > 0 => Pos::Flush(c.rng.below(fl)),
        _ => Pos::Read(c.rng.below(rd)),
    };
    c.note(format!("timeout {:?}, stalls at {pos:?} of {rd}/{wr}/{fl}; steps {}", s.timeout, brief(&s.steps)));
    let mut plan = s.plan.clone();
    plan.faults.push((pos, Fault::Stall));
    let (_, o) = s.start(plan, None);
    let (evs, stamps, _) = s.run(o, None, None)?;
    asked(c, s.timeout, true)?;
    let mut at = evs.iter().zip(&clean).take_while(|(a, b)| same_ev(a, b)).count();
    let mut either = false;
    if at > 0 && !stamps[at - 1].is_zero() && matches!(evs[at - 1], Ev::Err(_)) {
        // `one` met a row that does not convert, then no further packet: both are errors to report
        at -= 1;
        either = true;
    }
    match evs.get(at) {
        Some(Ev::Err(Kind::Io(ErrorKind::TimedOut))) => {}
        Some(Ev::Err(_)) if either => {}
        x => return violation("no timeout", format!("stalled at {pos:?}, the pending call gave {} instead of a timeout", brief(x))),
    }
    let slack = Duration::from_millis(3);
    for (i, t) in stamps.iter().enumerate().take(at) {
        ensure!(t.is_zero(), "slow", "observation {i} took {t:?}");
    }
    let took = stamps[at];
    ensure!(took >= s.timeout, "too early", "the timeout is {:?}, the call failed after {took:?}", s.timeout);
    ensure!(took <= s.timeout + slack, "too late", "the timeout is {:?}, the call failed after {took:?}", s.timeout);
    // what comes after it may wait again, but not for long
    let mut last = took;
    for t in &stamps[at + 1..] {
        ensure!(*t <= last + (s.timeout + slack) * 4, "too late", "a call after the timeout takes {:?}", *t - last);
        last = *t;
    }
    c.count(
        match pos {
            Pos::Read(_) => "stalled reads timed out",
            Pos::Write(_) => "stalled writes timed out",
            Pos::Flush(_) => "stalled flushes timed out",
        },
        1,
    );
    if at == 0 {
        c.count("timed out during login", 1);
    }
    c.feed(&(s.seed, format!("{pos:?}")));
    c.sample(format!("stall at {pos:?}: timed out after {took:?}, configured {:?}", s.timeout));
    Ok(())
}

/// Slow, but each packet comes in time.
pub fn patience(c: &mut Case) -> CaseResult {
    let mut s = Setup::random(&mut c.rng);
    s.timeout = s.timeout.max(Duration::from_millis(200));
    let (link, o) = s.start(s.plan.clone(), None);
    let (clean, _, _) = s.run(o, None, None)?;
    let (rd, wr, fl) = {
        let l = link.lock();
        (l.delivered, l.written, l.flush_calls)
    };
    // the client may look at what has arrived only after the timeout
    let late = c.rng.chance(1, 4).then(|| s.timeout.mul_f64(*c.rng.pick(&[0.3, 0.99, 1.01, 1.5, 10.0])));
    let mut plan = if late.is_some() { IoPlan::default() } else { s.plan.clone() };
    // a little on top: within packets, while writing, while flushing
    let bit = s.timeout.mul_f64(0.04);
    let faults = late.is_none();
    if faults && c.rng.coin() {
        plan.faults.push((Pos::Read(c.rng.below(rd)), Fault::Delay(bit)));
    }
    // nothing else is pending while the client writes
    let much = s.timeout.mul_f64(0.45);
    if faults && wr > 0 && c.rng.coin() {
        plan.faults.push((Pos::Write(c.rng.below(wr)), Fault::Delay(much)));
    }
    if faults && fl > 0 && c.rng.coin() {
        plan.faults.push((Pos::Flush(c.rng.below(fl)), Fault::Delay(much)));
    }
    let total: Arc<std::sync::Mutex<Duration>> = Default::default();
    let idle = c.rng.coin().then(|| s.timeout * c.rng.range(1, 50) as u32);
    c.note(format!("timeout {:?}, idle {idle:?}, looked at {late:?} late, faults {:?}; steps {}", s.timeout, plan.faults, brief(&s.steps)));
    let (_, o) = s.start(plan, Some((s.timeout.mul_f64(0.9), total.clone())));
    let (evs, stamps, _) = s.run(o, idle, late)?;
    asked(c, s.timeout, true)?;
    let waited = *crate::lock(&total);
    for (i, e) in evs.iter().enumerate() {
        ensure!(
            !matches!(e, Ev::Err(Kind::Io(ErrorKind::TimedOut))),
            "false timeout",
            "every packet came within {:?}, observation {i} (after {:?}) is a timeout",
            s.timeout,
            stamps[i]
        );
    }
    ensure!(
        evs.len() == clean.len() && evs.iter().zip(&clean).all(|(a, b)| same_ev(a, b)),
        "false timeout",
        "a slow server gives {}, a prompt one {}",
        brief(&evs),
        brief(&clean)
    );
    if waited > s.timeout {
        c.count("sessions slower than the timeout", 1);
    }
    c.count("slow sessions", 1);
    c.count("sessions of a busy client", late.is_some() as u64);
    c.feed(&(s.seed, format!("{:?}", s.timeout)));
    Ok(())
}

/// Packets of several fragments: stalls around the seams.
pub fn seams(c: &mut Case) -> CaseResult {
    use crate::{wire, Cmd, OkSpec, Session};
    let r = &mut c.rng;
    let max = wire::MAX as u64;
    let size = *r.pick(&[max - 1, max, max + 1, 2 * max]);
    let write = r.coin();
    let timeout = Duration::from_millis(r.range(1, 100_000));
    let n = size as usize;
    let handler = move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| match cmd {
        Cmd::Quit => {}
        _ if write => s.ok(io, &OkSpec::default()),
        _ => {
            let cols = [wire::ColSpec::new("a", wire::typ::LONGBLOB, 0)];
            let row = wire::text_row(&[Some(vec![b'x'; n - 9])]);
            s.result(io, &cols, &[row], &OkSpec::default());
        }
    };
    // one quarter of the positions just before, at and after each seam
    let frames = size / max + 1;
    let seam = r.below(frames + 1);
    let off = (seam * (max + 4)).min(size + 4 * frames);
    let start = |faults: Vec<(Pos, Fault)>| {
        let plan = IoPlan { faults, ..Default::default() };
        let (link, _) = server(handler, plan);
        let mut o = opts(once(link.clone()));
        o.timeout = timeout;
        prepare(&mut o);
        (link, o)
    };
    let sql = if write { "x".repeat(n - 1) } else { "x".into() };
    let go = |link: Link, o: Opts, faults: &mut dyn FnMut(&Link) -> (u64, u64, u64)| {
        drive("session", async {
            let mut conn = Connection::connect(Arc::new(o)).await.map_err(|e| Fail::Violation { sig: "connect failed".into(), msg: brief(e) })?;
            faults(&link);
            let t = Instant::now();
            let e = if write {
                conn.execute_query(&sql).await.map(|_| ()).err()
            } else {
                match conn.query::<Row>(&sql).await {
                    Ok(mut rs) => rs.collect().await.map(|_| ()).err(),
                    Err(e) => Some(e),
                }
            };
            Ok((e.map(|e| kind(&e)), t.elapsed()))
        })
    };
    // where the command's bytes and its response begin
    let mut base = (0, 0, 0);
    let (link, o) = start(vec![]);
    let (clean, _) = go(link.clone(), o, &mut |l| {
        let l = l.lock();
        base = (l.written, l.delivered, l.flush_calls);
        base
    })?;
    ensure!(clean.is_none(), "false timeout", "a large packet fails: {}", brief(&clean));
    let r = &mut c.rng;
    let (total, first) = {
        let l = link.lock();
        if write {
            (l.written, base.0)
        } else {
            (l.delivered, base.1)
        }
    };
    let jitter = r.range(0, 8);
    let at = match r.below(4) {
        0 => total - 1 - r.below(12),
        _ => (first + off + if write { 0 } else { 60 } + jitter).saturating_sub(6),
    }
    .clamp(first, total - 1);
    let pos = if write { Pos::Write(at) } else { Pos::Read(at) };
    c.note(format!("size {size}, write {write}, stall at {pos:?} of {first}..{total}, timeout {timeout:?}"));
    let (link, o) = start(vec![(pos, Fault::Stall)]);
    let (got, took) = go(link, o, &mut |_| (0, 0, 0))?;
    ensure!(got == Some(Kind::Io(ErrorKind::TimedOut)), "no timeout", "stalled at {pos:?}: {}", brief(&got));
    ensure!(took >= timeout && took <= timeout + Duration::from_millis(3), "too early or late", "the timeout is {timeout:?}, the call failed after {took:?}");
    asked(c, timeout, true)?;
    c.count("stalls in large packets", 1);
    c.feed(&(size, write, at));
    Ok(())
}
