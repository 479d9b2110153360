//! C05: an interrupted exchange never leads to a stale answer.
use {
    mysql_connector::types::Value,
    std::{
        future::Future,
        io::ErrorKind,
        pin::Pin,
        task::{Context, Poll},
        time::Duration,
    },
    vharness::{kit::*, script::*, *},
};

/// Drops the future after so many polls.
struct Cut<F> {
    f: Pin<Box<F>>,
    left: u64,
}

impl<F: Future> Future for Cut<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.left == 0 {
            return Poll::Ready(None);
        }
        self.left -= 1;
        self.f.as_mut().poll(cx).map(Some)
    }
}

fn cut<F: Future>(f: F, polls: u64) -> Cut<F> {
    Cut { f: Box::pin(f), left: polls }
}

/// Own answers, then at most errors. Returns whether it ended early.
fn own_or_error(want: &[Want], got: &[Ev]) -> Result<bool, String> {
    let mut broken = false;
    for (i, g) in got.iter().enumerate() {
        let local = matches!(g, Ev::Err(k) if !matches!(k, Kind::Server { .. }));
        if broken {
            match g {
                Ev::End => {}
                _ if local => {}
                _ => return Err(format!("observation {i} after an error: {}", brief(g))),
            }
            continue;
        }
        match want.get(i) {
            Some(w) if w.fits(g) => {}
            _ if local => broken = true,
            w => return Err(format!("observation {i}: got {}, its own answer is {}", brief(g), brief(w))),
        }
    }
    Ok(broken || got.len() < want.len())
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Break {
    /// drop the future after some polls
    Cancel,
    /// a pause longer than the timeout; the data comes later
    LateRead,
    LateWrite,
    LateFlush,
    /// one error, then the transport goes on
    ErrRead,
    ErrWrite,
    ErrFlush,
    Close,
    CloseWrite,
    StallRead,
}

const BREAKS: [Break; 13] = [
    Break::Cancel,
    Break::Cancel,
    Break::Cancel,
    Break::LateRead,
    Break::LateRead,
    Break::LateWrite,
    Break::LateFlush,
    Break::ErrRead,
    Break::ErrWrite,
    Break::ErrFlush,
    Break::Close,
    Break::CloseWrite,
    Break::StallRead,
];

fn one_exec(mut st: Step) -> Step {
    if let Call::Prepared { execs, .. } = &mut st.call {
        execs.truncate(1);
        st.replies.truncate(execs.len());
    }
    st
}

fn breaks(c: &mut Case) -> CaseResult {
    let dep = c.rng.chance(2, 3);
    let sh = Shape { max_bytes: 60, max_cols: 3, bad_rows: 10, ..Default::default() };
    let n = c.rng.range(2, 6);
    let steps: Vec<Step> = (1..=n).map(|t| one_exec(step(&mut c.rng, &sh, t))).collect();
    let how = *c.rng.pick(&BREAKS);
    let at_step = c.rng.usize(steps.len());
    // first without the fault, to know how long everything takes
    let mut plan = IoPlan::random(&mut c.rng);
    if how == Break::Cancel {
        plan.pend = 300;
        if c.rng.coin() {
            plan.rchunk = *c.rng.pick(&[Chunk::One, Chunk::Upto(3), Chunk::Upto(20)]);
            plan.wchunk = *c.rng.pick(&[Chunk::One, Chunk::Upto(3), Chunk::Upto(20)]);
        }
    }
    let start = |plan: IoPlan| {
        let mut srv = Server::new(Scripted::new(&steps));
        if !dep {
            srv.greeting.caps &= !caps::DEPRECATE_EOF;
        }
        srv.link(plan).0
    };
    c.note(format!("{how:?} in step {} of {n}, deprecate eof {dep}", at_step + 1));
    for st in &steps {
        c.note(format!("{} {}", st.tag, brief(&st.call)));
        c.note(format!("    replies {}", brief(&st.replies)));
    }
    let link = start(plan.clone());
    let mut span = (0u64, 0u64, 0u64, 0u64);
    let mut polls = 0u64;
    drive("clean run", async {
        let mut conn = must_connect(&link).await?;
        for (i, st) in steps.iter().enumerate() {
            let before = {
                let g = link.lock();
                (g.delivered, g.written, g.flush_calls)
            };
            let mut got = Vec::new();
            {
                let mut f = Box::pin(perform(&mut conn, st, &mut got));
                std::future::poll_fn(|cx| {
                    if i == at_step {
                        polls += 1;
                    }
                    f.as_mut().poll(cx)
                })
                .await;
            }
            if i == at_step {
                let g = link.lock();
                span = (before.0, g.delivered, before.1, g.written);
                let _ = before.2;
            }
        }
        Ok(())
    })?;
    let link = start(plan);
    let pick = c.rng.u64();
    let late = Duration::from_millis(10_001 + c.rng.below(8_000));
    let errk = *c.rng.pick(&[ErrorKind::ConnectionReset, ErrorKind::BrokenPipe, ErrorKind::Other, ErrorKind::Interrupted]);
    let mut broke = false;
    let mut later_own = 0;
    let mut later_err = 0;
    drive("session", async {
        let mut conn = must_connect(&link).await?;
        for (i, st) in steps.iter().enumerate() {
            let want = expect(st, dep);
            let mut got = Vec::new();
            if i == at_step {
                let rd = span.0 + pick % (span.1 - span.0).max(1);
                let wr = span.2 + pick % (span.3 - span.2).max(1);
                let fault = {
                    let g = link.lock();
                    match how {
                        Break::Cancel => None,
                        Break::LateRead => Some((Pos::Read(rd), Fault::Delay(late))),
                        Break::LateWrite => Some((Pos::Write(wr), Fault::Delay(late))),
                        Break::LateFlush => Some((Pos::Flush(g.flush_calls), Fault::Delay(late))),
                        Break::ErrRead => Some((Pos::Read(rd), Fault::Err(errk))),
                        Break::ErrWrite => Some((Pos::Write(wr), Fault::Err(errk))),
                        Break::ErrFlush => Some((Pos::Flush(g.flush_calls), Fault::Err(errk))),
                        Break::Close => Some((Pos::Read(rd), Fault::Zero)),
                        Break::CloseWrite => Some((Pos::Write(wr), Fault::Zero)),
                        Break::StallRead => Some((Pos::Read(rd), Fault::Stall)),
                    }
                };
                match fault {
                    None => {
                        let done = cut(perform(&mut conn, st, &mut got), pick % polls.max(1)).await;
                        broke = done.is_none();
                        c.count("futures dropped", broke as u64);
                    }
                    Some(f) => {
                        link.lock().plan.faults.push(f);
                        perform(&mut conn, st, &mut got).await;
                        broke = !link.lock().fired.is_empty();
                        c.count("faults that fired", broke as u64);
                    }
                }
            } else {
                perform(&mut conn, st, &mut got).await;
            }
            if matches!(st.call, Call::Cleanup) {
                // what it reports is the subject of C10; it must not succeed on a broken exchange
                continue;
            }
            let early = match own_or_error(&want, &got) {
                Ok(e) => e,
                Err(e) => {
                    return violation(
                        "stale answer",
                        format!("{how:?} in step {}; step {} ({}): {e}; all: {}", at_step + 1, st.tag, brief(&st.call), brief(&got)),
                    )
                }
            };
            if i < at_step && early {
                return violation("broken before", format!("step {} failed before anything was interrupted: {}", st.tag, brief(&got)));
            }
            if i > at_step && broke {
                if early {
                    later_err += 1;
                } else {
                    later_own += 1;
                }
            }
        }
        let _ = conn.disconnect().await;
        Ok(())
    })?;
    if !broke {
        c.trivial = true;
    }
    c.count("interrupted sessions", broke as u64);
    c.count("later calls that answered for themselves", later_own);
    c.count("later calls that failed", later_err);
    c.feed(&(how, at_step, broke, format!("{:?}", steps[at_step].call)));
    c.sample(format!("{how:?} at {pick} in {}: later {later_own} answered, {later_err} failed", brief(&steps[at_step].call)));
    Ok(())
}

/// The same statement, executed over and over, with interruptions.
fn statement(c: &mut Case) -> CaseResult {
    let n = c.rng.range(3, 10);
    let mut count = 0u64;
    let rows = c.rng.below(4);
    let (link, _) = server(
        move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| match cmd {
            Cmd::Prepare(q) => {
                s.prepared(io, &q, 1, &[]);
            }
            Cmd::Execute { params, .. } => {
                // the answer repeats the parameter
                let id = match params.ok().and_then(|p| p.into_iter().next()).map(|p| p.val) {
                    Some(PVal::Int(x)) => x,
                    _ => -1,
                };
                count += 1;
                if rows == 0 {
                    s.ok(io, &OkSpec { affected: id as u64, ..Default::default() })
                } else {
                    let col = ColSpec::new("a", typ::LONGLONG, 0);
                    let r: Vec<_> = (0..rows).map(|_| wire::bin_row(&[Some(id.to_le_bytes().to_vec())])).collect();
                    s.result(io, &[col], &r, &OkSpec::default());
                }
            }
            _ => {}
        },
        IoPlan { pend: 300, ..IoPlan::random(&mut c.rng) },
    );
    let plan: Vec<(u64, u64)> = (0..n).map(|_| (if c.rng.coin() { u64::MAX } else { c.rng.below(30) }, c.rng.below(4))).collect();
    c.note(format!("{rows} rows; (polls, mode) {plan:?}"));
    let mut own = 0;
    drive("statement", async {
        let mut conn = must_connect(&link).await?;
        let mut st = must(conn.prepare_statement("x").await, "prepare", "prepare")?;
        for (i, (polls, mode)) in plan.iter().enumerate() {
            let p = vec![Value::Long(i as i64)];
            let got = cut(
                async {
                    if rows == 0 {
                        match st.execute(&p).await {
                            Ok(o) => Some(vec![o.affected_rows() as i64]),
                            Err(_) => None,
                        }
                    } else {
                        match st.query::<Value, Row>(&p).await {
                            Ok(mut rs) => {
                                let rows = match mode {
                                    0 => rs.collect().await.ok(),
                                    1 => rs.next().await.ok().map(|r| r.into_iter().collect()),
                                    2 => rs.one().await.ok().map(|r| r.into_iter().collect()),
                                    _ => Some(vec![]),
                                };
                                rows.map(|r| {
                                    r.iter()
                                        .map(|x| match x.as_slice() {
                                            [Value::Long(y)] => *y,
                                            _ => -7,
                                        })
                                        .collect()
                                })
                            }
                            Err(_) => None,
                        }
                    }
                },
                *polls,
            )
            .await;
            c.count("executions interrupted", got.is_none() as u64);
            if let Some(Some(v)) = got {
                let full = rows == 0 || match mode {
                    0 => v.len() as u64 == rows,
                    1 | 2 => v.len() == 1,
                    _ => true,
                };
                ensure!(full && v.iter().all(|x| *x == i as i64), "stale answer", "execution {i} got {v:?}");
                own += 1;
            }
        }
        Ok(())
    })?;
    c.count("executions answered", own);
    c.feed(&(rows, &plan));
    Ok(())
}

pub fn main() {
    Check::new("C05", "one case = one session with one interruption (or several); distinct by kind, step, call")
        .assume("bytes that were on their way when an operation was interrupted may still arrive afterwards")
        .scale(6)
        .group("breaks", 16_000, 600_000, breaks)
        .group("statement", 3000, 100_000, statement)
        .require("interrupted sessions", 3000)
        .require("futures dropped", 500)
        .require("faults that fired", 1500)
        .main()
}
