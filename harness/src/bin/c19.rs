//! C19: pooled connections are handed out clean and alive.
use {
    mysql_connector::{
        pool::{AsyncPool, AsyncPoolTrait, PoolItem},
        Connection,
    },
    std::{
        collections::HashSet,
        future::Future,
        io::ErrorKind,
        pin::Pin,
        sync::{Arc, Mutex},
        task::{Context, Poll},
        time::Duration,
    },
    vharness::{kit::*, script::*, stream::Dialer, *},
};

struct Cut<F> {
    f: Pin<Box<F>>,
    left: u64,
}

impl<F: Future> Future for Cut<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.left == 0 {
            return Poll::Ready(None);
        }
        self.left -= 1;
        self.f.as_mut().poll(cx).map(Some)
    }
}

fn cut<F: Future>(f: F, polls: u64) -> Cut<F> {
    Cut { f: Box::pin(f), left: polls }
}

/// All of them at once, on one task.
async fn join<F: Future>(fs: Vec<F>) -> Vec<F::Output> {
    let mut fs: Vec<Pin<Box<F>>> = fs.into_iter().map(Box::pin).collect();
    let mut out: Vec<Option<F::Output>> = fs.iter().map(|_| None).collect();
    std::future::poll_fn(|cx| {
        let mut ready = true;
        for (f, o) in fs.iter_mut().zip(&mut out) {
            if o.is_none() {
                match f.as_mut().poll(cx) {
                    Poll::Ready(x) => *o = Some(x),
                    Poll::Pending => ready = false,
                }
            }
        }
        if ready {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    })
    .await;
    out.into_iter().flatten().collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    /// leaves when done; what it left unread is up to the steps
    Quiet,
    /// drops the future of the last step after so many polls
    Cancel(u64),
    /// the transport misbehaves during the last step, this many bytes from its start
    Fault(bool, u64, Fault),
    Flush(Fault),
    /// gives up waiting for the pool after so many polls
    Impatient(u64),
}

#[derive(Clone, Debug)]
struct User {
    steps: Vec<Step>,
    mode: Mode,
}

/// What happens to a newly dialed connection.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Dial {
    Good,
    Refused,
    Broken(u64),
}

struct Net {
    links: Mutex<Vec<Link>>,
    dials: Vec<Dial>,
    steps: Vec<Step>,
    dep: bool,
    plan: IoPlan,
}

impl Dialer for Net {
    fn dial(&self) -> Link {
        let mut links = lock(&self.links);
        let n = links.len();
        let mut srv = Server::new(Scripted::new(&self.steps));
        srv.greeting.conn_id = 1000 + n as u32;
        if !self.dep {
            srv.greeting.caps &= !caps::DEPRECATE_EOF;
        }
        let mut plan = self.plan.clone();
        plan.seed = plan.seed.wrapping_add(n as u64);
        match self.dials.get(n).copied().unwrap_or(Dial::Good) {
            Dial::Good => {}
            Dial::Refused => plan.connect_err = Some(ErrorKind::ConnectionRefused),
            Dial::Broken(at) => plan.faults.push((Pos::Read(at), Fault::Zero)),
        }
        let link = srv.link(plan).0;
        links.push(link.clone());
        link
    }
}

#[derive(Default)]
struct Log {
    bad: Vec<(String, String)>,
    broken: HashSet<u32>,
    holding: HashSet<u32>,
    counts: Vec<&'static str>,
    dial_errors: u64,
}

const RUNS: &str = "answers of undisturbed users checked";

async fn user<'p, const N: usize>(u: &User, k: usize, pool: &'p AsyncPool<Connection, Mem, N>, net: &Net, log: &Mutex<Log>, dep: bool) {
    let got: Option<Result<PoolItem<'p, Connection>, _>> = match u.mode {
        Mode::Impatient(n) => cut(pool.get(), n).await,
        _ => Some(pool.get().await),
    };
    let mut item = match got {
        None => {
            lock(log).counts.push("users that gave up waiting");
            return;
        }
        Some(Err(e)) => {
            let mut l = lock(log);
            l.dial_errors += 1;
            // only a dial that was meant to fail may do so
            if !matches!(kind(&e), Kind::Io(_)) {
                l.bad.push(("connect failed".into(), format!("user {k}: {}", brief(&e))));
            }
            return;
        }
        Some(Ok(x)) => x,
    };
    let id = item.data().id();
    let Some(link) = lock(&net.links).get((id as usize).wrapping_sub(1000)).cloned() else {
        lock(log).bad.push(("unknown connection".into(), format!("user {k} got connection id {id}")));
        return;
    };
    {
        let mut l = lock(log);
        if l.broken.contains(&id) {
            l.bad.push(("broken connection handed out".into(), format!("user {k} got connection {id}, whose exchange had been broken off")));
            return;
        }
        if !l.holding.insert(id) {
            l.bad.push(("connection shared".into(), format!("user {k} got connection {id}, which is in use")));
            return;
        }
    }
    let mut broken = false;
    for (i, st) in u.steps.iter().enumerate() {
        let last = i + 1 == u.steps.len();
        let mut got = vec![];
        let mut disturbed = false;
        let conn: &mut Connection = &mut item;
        match u.mode {
            Mode::Cancel(n) if last => {
                if cut(perform(conn, st, &mut got), n).await.is_none() {
                    disturbed = true;
                    lock(log).counts.push("users whose last call was dropped");
                }
            }
            Mode::Fault(..) | Mode::Flush(_) if last => {
                {
                    let mut g = link.lock();
                    let f = match u.mode {
                        Mode::Fault(true, n, f) => (Pos::Read(g.delivered + n), f),
                        Mode::Fault(false, n, f) => (Pos::Write(g.written + n), f),
                        Mode::Flush(f) => (Pos::Flush(g.flush_calls), f),
                        _ => unreachable!(),
                    };
                    g.plan.faults.push(f);
                }
                perform(conn, st, &mut got).await;
                let mut g = link.lock();
                let n = g.plan.faults.len();
                if g.fired.contains(&(n - 1)) {
                    disturbed = true;
                } else {
                    // it must not hit the next user
                    g.plan.faults.pop();
                }
            }
            _ => perform(conn, st, &mut got).await,
        }
        if disturbed {
            if got.iter().any(|e| matches!(e, Ev::Err(Kind::Io(_)))) {
                broken = true;
                lock(log).counts.push("connections broken by the transport");
            }
            break;
        }
        if matches!(st.call, Call::Cleanup) {
            continue;
        }
        let r = compare(&expect(st, dep), &got);
        let mut l = lock(log);
        l.counts.push(RUNS);
        if let Err(e) = r {
            l.bad.push((
                "wrong answer on a pooled connection".into(),
                format!("user {k} ({:?}) on connection {id}, step {} ({}): {e}", u.mode, st.tag, brief(&st.call)),
            ));
            break;
        }
    }
    {
        let mut l = lock(log);
        l.holding.remove(&id);
        if broken {
            l.broken.insert(id);
        }
    }
    drop(item);
}

fn fault(rng: &mut Rng) -> Mode {
    let kind = *rng.pick(&[ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::Other, ErrorKind::TimedOut]);
    let late = Fault::Delay(Duration::from_millis(10_001 + rng.below(9_000)));
    let f = match rng.below(4) {
        0 => Fault::Err(kind),
        1 => late,
        2 => Fault::Zero,
        _ => Fault::Stall,
    };
    match rng.below(5) {
        0 => Mode::Flush(if matches!(f, Fault::Zero) { late } else { f }),
        1 => Mode::Fault(false, rng.below(8), f),
        _ => {
            let n = *rng.pick(&[1u64, 4, 5, 12, 60, 200]);
            Mode::Fault(true, rng.below(n), f)
        }
    }
}

fn pooled<const N: usize>(c: &mut Case) -> CaseResult {
    let dep = c.rng.chance(2, 3);
    let sh = Shape { max_bytes: *c.rng.pick(&[20, 60, 2000]), max_cols: 3, max_rows: 4, bad_rows: 25, bad_defs: 10, ..Default::default() };
    let n = c.rng.range(3, 10) as usize;
    let together = c.rng.coin();
    let mut tag = 0;
    let users: Vec<User> = (0..n)
        .map(|_| {
            let steps = (0..c.rng.range(1, 3))
                .map(|_| {
                    tag += 1;
                    step(&mut c.rng, &sh, tag)
                })
                .collect();
            let mode = match c.rng.below(10) {
                0..=3 => Mode::Quiet,
                4..=6 => {
                    let n = *c.rng.pick(&[3u64, 10, 40, 200]);
                    Mode::Cancel(c.rng.below(n))
                }
                7 | 8 => fault(&mut c.rng),
                _ => Mode::Impatient(c.rng.below(8)),
            };
            User { steps, mode }
        })
        .collect();
    let trouble = c.rng.chance(1, 4);
    let dials: Vec<Dial> = (0..n)
        .map(|_| match c.rng.below(6) {
            0 if trouble => Dial::Refused,
            1 if trouble => Dial::Broken(c.rng.below(60)),
            _ => Dial::Good,
        })
        .collect();
    let mut plan = IoPlan::random(&mut c.rng);
    plan.pend = 200;
    plan.connect_delay = Duration::from_millis(c.rng.below(3));
    let net = Arc::new(Net {
        links: Default::default(),
        dials: dials.clone(),
        steps: users.iter().flat_map(|u| u.steps.clone()).collect(),
        dep,
        plan,
    });
    c.note(format!("pool of {N}, deprecate eof {dep}, together {together}, dials {dials:?}"));
    for (i, u) in users.iter().enumerate() {
        c.note(format!("user {i}: {:?}", u.mode));
        for st in &u.steps {
            c.note(format!("    {} {} replies {}", st.tag, brief(&st.call), brief(&st.replies)));
        }
    }
    struct Fwd(Arc<Net>);
    impl Dialer for Fwd {
        fn dial(&self) -> Link {
            self.0.dial()
        }
    }
    let pool: AsyncPool<Connection, Mem, N> = AsyncPool::new(Arc::new(opts(dialer(Fwd(net.clone())))));
    let log = Mutex::new(Log::default());
    drive("users of the pool", async {
        if together {
            join(users.iter().enumerate().map(|(k, u)| user(u, k, &pool, &net, &log, dep)).collect()).await;
        } else {
            for (k, u) in users.iter().enumerate() {
                user(u, k, &pool, &net, &log, dep).await;
            }
        }
        Ok(())
    })?;
    let l = log.into_inner().unwrap_or_else(|e| e.into_inner());
    if let Some((sig, msg)) = l.bad.first() {
        return violation(sig, msg.clone());
    }
    let dialed = lock(&net.links).len();
    let failing = dials.iter().take(dialed).filter(|d| !matches!(d, Dial::Good)).count() as u64;
    ensure!(l.dial_errors <= failing, "connect failed", "{} users got no connection, only {failing} dials were broken", l.dial_errors);
    for k in &l.counts {
        c.count(k, 1);
    }
    c.count("connections dialed", dialed as u64);
    c.count("dials that failed", l.dial_errors);
    c.feed(&format!("{:?}", users.iter().map(|u| (u.mode, u.steps.len())).collect::<Vec<_>>()));
    c.sample(format!("{n} users, pool of {N}, {dialed} dialed, {} broken: {}", l.broken.len(), brief(users.iter().map(|u| u.mode).collect::<Vec<_>>())));
    // broken connections are closed, not kept
    for id in &l.broken {
        let link = lock(&net.links)[(*id - 1000) as usize].clone();
        ensure!(link.lock().dropped, "broken connection kept", "connection {id} was broken off and is still open after its user returned it");
        c.count("broken connections seen closed", 1);
    }
    drop(pool);
    for (i, link) in lock(&net.links).iter().enumerate() {
        ensure!(link.lock().dropped, "connection leaked", "connection {} is still open after the pool was dropped", 1000 + i);
    }
    Ok(())
}

pub fn main() {
    Check::new("C19", "one case = one pool with several users; distinct by what the users do")
        .assume("a connection the server closed while nobody used it is not counted as broken off")
        .scale(2)
        .group("one", 40_000, 400_000, pooled::<1>)
        .group("two", 25_000, 250_000, pooled::<2>)
        .group("three", 12_000, 150_000, pooled::<3>)
        .require(RUNS, 30_000)
        .require("users whose last call was dropped", 3000)
        .require("connections broken by the transport", 2000)
        .require("broken connections seen closed", 2000)
        .require("dials that failed", 300)
        .main()
}
