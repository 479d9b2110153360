//! C03: packets with a wrong sequence number are rejected, others never.
use {
    mysql_connector::types::Value,
    vharness::{auth::*, kit::*, *},
};

#[derive(Clone, Copy, Debug, Hash, PartialEq)]
enum How {
    Next,
    Collect,
    Finish,
    /// not read; the next command has to skip them
    Drop,
}

struct Plan {
    rows: u64,
    cols: usize,
    params: usize,
    binary: bool,
    dep: bool,
    how: How,
    /// size of the only cell of every row, or 0
    big: usize,
}

/// Frames the server sends for the result: (before the rows, per row).
fn layout(p: &Plan) -> (u64, u64) {
    let head = 1 + p.cols as u64 + !p.dep as u64;
    let per = if p.big == 0 {
        1
    } else {
        let c = if p.big < 0x1000000 { 4 } else { 9 };
        ((p.big + c + if p.binary { 2 } else { 0 }) / wire::MAX) as u64 + 1
    };
    (head, per)
}

fn go(c: &mut Case, p: Plan, tamper: Option<(u64, u8, bool)>) -> CaseResult {
    let cols: Vec<ColSpec> = (0..p.cols).map(|i| ColSpec::new(&format!("c{i}"), if p.big > 0 { typ::LONGBLOB } else { typ::LONGLONG }, 0)).collect();
    let big = c.rng.filler(p.big);
    let val = |r: u64, i: usize| if p.big > 0 { Value::Bytes(big.clone()) } else { Value::Long((r * 100) as i64 + i as i64) };
    let mut rng = c.rng.fork();
    let rows: Vec<Vec<u8>> = (0..p.rows)
        .map(|r| {
            let v: Vec<Value> = (0..p.cols).map(|i| val(r, i)).collect();
            if p.binary {
                gen::bin_row(&mut rng, &cols, &v)
            } else {
                gen::text_row(&mut rng, &cols, &v)
            }
        })
        .collect();
    let end = gen::end(&mut c.rng);
    let (cols2, end2, params) = (cols.clone(), end.clone(), p.params);
    // the frame that is wrong is counted from the command on
    let mut srv = Server::new(move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| match cmd {
        Cmd::Query(q) if q == b"ok" => s.ok(io, &OkSpec { affected: 5, status: 2, ..Default::default() }),
        Cmd::Prepare(q) => {
            s.prepared(io, &q, params, &cols2);
        }
        Cmd::Query(_) | Cmd::Execute { .. } => s.result(io, &cols2, &rows, &end2),
        _ => {}
    });
    if !p.dep {
        srv.greeting.caps &= !caps::DEPRECATE_EOF;
    }
    let (link, _) = srv.link(if p.big > 0 { IoPlan::default() } else { IoPlan::random(&mut c.rng) });
    let (head, per) = layout(&p);
    let total = head + p.rows * per + 1;
    // something else arrives in place of the frame
    let stray = (tamper.is_some() && c.rng.chance(1, 3)).then(|| match c.rng.below(6) {
        0 | 1 => vec![],
        2 => OkSpec { affected: 1, status: 2, ..Default::default() }.encode(*c.rng.pick(&[0, 0xFE])),
        3 => gen::err(&mut c.rng).encode(),
        4 => vec![*c.rng.pick(&[0, 1, 2, 0xFB, 0xFE, 0xFF])],
        _ => c.rng.filler(9),
    });
    c.count("stray packets", stray.is_some() as u64);
    let mut hit = String::new();
    drive("exchange", async {
        let mut conn = must_connect(&link).await?;
        // what the wrong frame belongs to: None while preparing
        let mut prep = 0;
        if p.binary {
            prep = 1 + (p.params + p.cols) as u64;
            if !p.dep {
                prep += (p.params > 0) as u64 + (p.cols > 0) as u64;
            }
        }
        {
            let mut g = link.lock();
            let base = g.io.sent;
            g.io.stray = stray;
            g.io.tamper = tamper.map(|(at, d, on)| (base + at, d, on));
        }
        let params = vec![Value::Null; p.params];
        macro_rules! sync_err {
            ($e:expr, $what:expr) => {{
                let e = $e;
                ensure!(kind(&e) == Kind::OutOfSync, "no out-of-sync error", "{}: {}", $what, brief(&e));
                c.count("out-of-sync errors", 1);
                hit = $what.to_string();
            }};
        }
        // the rest: an error, or the answer to the command
        macro_rules! later {
            ($conn:expr) => {{
                for _ in 0..2 {
                    if let Ok(ok) = $conn.execute_query("ok").await {
                        ensure!(summary!(ok) == Summary { affected: 5, status: 2, last_id: 0, warnings: 0, message: vec![] }, "stale", "a later command got {:?}", summary!(ok));
                    }
                }
            }};
        }
        macro_rules! body {
            ($query:expr, $at:expr) => {{
                // $at: the wrong frame, counted from the response to the query
                let at: Option<u64> = $at;
                let done = match $query {
                    Err(e) => {
                        match at {
                            None => return violation("rejected", format!("a correct exchange is rejected: {}", brief(&e))),
                            Some(_) => sync_err!(e, "query"),
                        }
                        true
                    }
                    Ok(mut rs) => {
                        ensure!(at.map_or(true, |a| a >= head), "accepted", "frame {at:?} of the result's head is out of sync, the query succeeded");
                        let bad_row = at.map(|a| (a - head) / per);
                        match p.how {
                            How::Next => {
                                let mut stop = false;
                                for i in 0..=p.rows {
                                    match rs.next().await {
                                        Ok(r) => {
                                            ensure!(bad_row != Some(i), "accepted", "packet {i} after the head is out of sync, next gave {}", brief(&r));
                                            let want = (i < p.rows).then(|| (0..p.cols).map(|k| val(i, k)).collect::<Vec<_>>());
                                            let good = match (&r, &want) {
                                                (Some(a), Some(b)) => same_row(a, b),
                                                (None, None) => true,
                                                _ => false,
                                            };
                                            ensure!(good, "wrong data", "row {i}: {}", brief(&r));
                                            c.count("packets in sync", 1);
                                        }
                                        Err(e) => {
                                            ensure!(bad_row.is_some(), "rejected", "a correct exchange is rejected at row {i}: {}", brief(&e));
                                            sync_err!(e, "next");
                                            stop = true;
                                            break;
                                        }
                                    }
                                }
                                if stop {
                                    for _ in 0..3 {
                                        if let Ok(Some(r)) = rs.next().await {
                                            return violation("accepted", format!("a row after the out-of-sync error: {}", brief(r)));
                                        }
                                    }
                                    if let Ok(o) = rs.finish().await {
                                        return violation("accepted", format!("a summary after the out-of-sync error: {}", brief(summary!(o))));
                                    }
                                }
                                stop
                            }
                            How::Collect => match rs.collect().await {
                                Ok(r) => {
                                    ensure!(bad_row.is_none(), "accepted", "packet {bad_row:?} after the head is out of sync, collect gave {} rows", r.len());
                                    ensure!(r.len() as u64 == p.rows, "wrong data", "{} rows of {}", r.len(), p.rows);
                                    c.count("packets in sync", p.rows);
                                    false
                                }
                                Err(e) => {
                                    ensure!(bad_row.is_some(), "rejected", "a correct exchange is rejected: {}", brief(&e));
                                    sync_err!(e, "collect");
                                    true
                                }
                            },
                            How::Finish => match rs.finish().await {
                                Ok(o) => {
                                    ensure!(bad_row.is_none(), "accepted", "packet {bad_row:?} after the head is out of sync, finish succeeded");
                                    ensure!(summary!(o) == Summary::of_end(&end, p.dep), "wrong data", "{:?}", summary!(o));
                                    false
                                }
                                Err(e) => {
                                    ensure!(bad_row.is_some(), "rejected", "a correct exchange is rejected: {}", brief(&e));
                                    sync_err!(e, "finish");
                                    true
                                }
                            },
                            How::Drop => {
                                drop(rs);
                                false
                            }
                        }
                    }
                };
                (done, at)
            }};
        }
        let (done, at) = if p.binary {
            match conn.prepare_statement("x").await {
                Err(e) => {
                    match tamper {
                        Some((a, _, _)) if a < prep => sync_err!(e, "prepare"),
                        _ => return violation("rejected", format!("a correct prepare is rejected: {}", brief(&e))),
                    }
                    (true, None)
                }
                Ok(mut st) => {
                    let at = match tamper {
                        Some((a, _, _)) if a < prep => {
                            // the definitions of a statement's parameters and columns may stay unread until the next command
                            ensure!(a > 0, "accepted", "the first packet of the answer to a prepare is out of sync, prepare succeeded");
                            Some(0)
                        }
                        Some((a, _, _)) => Some(a - prep),
                        None => None,
                    };
                    body!(st.query::<Value, Row>(&params).await, at)
                }
            }
        } else {
            body!(conn.query::<Row>("x").await, tamper.map(|t| t.0))
        };
        if !done && at.is_some() {
            // left unread: the next command skips it
            match conn.execute_query("ok").await {
                Ok(o) => return violation("accepted", format!("the skipped packet {at:?} is out of sync, the next command got {:?}", summary!(o))),
                Err(e) => sync_err!(e, "skipping"),
            }
        } else if at.is_none() && !done {
            let o = must(conn.execute_query("ok").await, "rejected", "next command")?;
            ensure!(o.affected_rows() == 5, "stale", "wrong answer");
        }
        later!(conn);
        Ok(())
    })?;
    if tamper.is_some() {
        ensure!(link.lock().io.tampered, "harness", "frame {tamper:?} of {total} was never sent");
    } else {
        c.count("exchanges in sync", 1);
    }
    c.count("frames", link.lock().io.sent);
    c.feed(&(p.rows, p.cols, p.params, p.binary, p.dep, p.how, tamper, p.big));
    c.sample(format!("{} rows, {} columns, binary {}, {:?}, wrong frame {tamper:?} seen by {hit}", p.rows, p.cols, p.binary, p.how));
    Ok(())
}

fn plan(rng: &mut Rng) -> Plan {
    Plan {
        rows: rng.below(7),
        cols: rng.range(1, 4) as usize,
        params: rng.usize(4),
        binary: rng.coin(),
        dep: rng.chance(2, 3),
        how: *rng.pick(&[How::Next, How::Next, How::Collect, How::Finish, How::Drop]),
        big: 0,
    }
}

fn delta(rng: &mut Rng) -> u8 {
    match rng.below(4) {
        0 => 1,
        1 => 255,
        2 => *rng.pick(&[128, 2, 254, 64]),
        _ => rng.range(1, 255) as u8,
    }
}

fn wrong(c: &mut Case) -> CaseResult {
    let p = plan(&mut c.rng);
    let (head, per) = layout(&p);
    let mut total = head + p.rows * per + 1;
    if p.binary {
        total += 1 + (p.params + p.cols) as u64;
        if !p.dep {
            total += (p.params > 0) as u64 + 1;
        }
    }
    let t = (c.rng.below(total), delta(&mut c.rng), c.rng.coin());
    c.note(format!("wrong frame {t:?} of {total}, rows {} cols {} params {} binary {} dep {} {:?}", p.rows, p.cols, p.params, p.binary, p.dep, p.how));
    go(c, p, Some(t))
}

fn right(c: &mut Case) -> CaseResult {
    let mut p = plan(&mut c.rng);
    if c.rng.coin() {
        // the numbers wrap
        p.rows = c.rng.range(240, 800);
        c.count("exchanges past 255", 1);
    }
    go(c, p, None)
}

/// Numbers around the wrap.
fn wrap(c: &mut Case) -> CaseResult {
    let mut p = plan(&mut c.rng);
    p.rows = c.rng.range(250, 600);
    p.binary = false;
    let (head, _) = layout(&p);
    let t = (c.rng.range(245, 245 + 20).min(head + p.rows), delta(&mut c.rng), c.rng.coin());
    go(c, p, Some(t))
}

fn big(c: &mut Case) -> CaseResult {
    let m = wire::MAX;
    let binary = c.rng.coin();
    let pre = if binary { 2 } else { 0 };
    let mut p = Plan {
        rows: 1,
        cols: 1,
        params: 0,
        binary,
        dep: c.rng.coin(),
        how: *c.rng.pick(&[How::Next, How::Collect, How::Finish, How::Drop]),
        big: 0,
    };
    p.big = *c.rng.pick(&[m - 4 - pre, m - 4 - pre + 1 + 5, 2 * m - 9 - pre, m + 100]);
    let (head, per) = layout(&p);
    let prep = if binary { 2 + !p.dep as u64 } else { 0 };
    let t = if c.rng.chance(1, 3) { None } else { Some((prep + head + c.rng.below(per + 1), delta(&mut c.rng), c.rng.coin())) };
    c.note(format!("cell {} bytes, binary {binary}, dep {}, {:?}, wrong {t:?}", p.big, p.dep, p.how));
    c.count("rows of several fragments", 1);
    go(c, p, t)
}

/// Wrong numbers during the login.
fn login(c: &mut Case) -> CaseResult {
    let rng = &mut c.rng;
    let plugin = *rng.pick(&Plugin::ALL);
    let key = key_bits(1024).clone();
    let n = nonce(rng);
    let cfg = AuthCfg {
        user: "user".into(),
        pass: "secret".into(),
        plugin,
        full: rng.coin(),
        force_switch: rng.chance(1, 3),
        nonce: n.clone(),
        switch_nonce: nonce(rng),
        switch_nul: true,
        secure: false,
        pem: random_pem(rng, &key),
        key,
        deny: Deny::No,
        error: gen::err(rng),
        ok: OkSpec { status: 2, ..gen::ok(rng) },
    };
    let greeting = Greeting { nonce: n, plugin: rng.pick(&Plugin::ALL).name().into(), ..Default::default() };
    let (ask, d) = (rng.coin(), delta(rng));
    let go = |t: Option<(u64, u8, bool)>| -> Result<(Result<(), mysql_connector::Error>, u64, Vec<String>), Fail> {
        struct Late(Server, Option<(u64, u8, bool)>);
        impl stream::Peer for Late {
            fn start(&mut self, io: &mut PeerIo) {
                io.tamper = self.1;
                self.0.start(io)
            }
            fn packet(&mut self, io: &mut PeerIo, pkt: Vec<u8>) {
                self.0.packet(io, pkt)
            }
        }
        let (auth, log) = AuthServer::new(cfg.clone());
        let srv = Server::new(|s: &mut Session, io: &mut PeerIo, _: Cmd| s.ok(io, &OkSpec::default())).greeting(greeting.clone()).login(auth);
        let link = Link::new(Box::new(Late(srv, t)), IoPlan::default());
        let mut o = opts(once(link.clone()));
        o.password = "secret".into();
        o.auth_plugin = None;
        o.allow_cleartext_password = true;
        if ask {
            o.max_allowed_packet = None;
        }
        let mut sent = 0;
        let r = drive("login", async {
            let mut conn = match mysql_connector::Connection::connect(std::sync::Arc::new(o)).await {
                Ok(c) => c,
                Err(e) => return Ok(Err(e)),
            };
            sent = link.lock().io.sent;
            // the end of the settings' rows may be left to the next command
            if ask && t.is_some_and(|t| t.0 == sent - 1) {
                return Ok(conn.execute_query("ok").await.map(|_| ()));
            }
            Ok(Ok(()))
        })?;
        let ev = lock(&log).events.clone();
        Ok((r, sent, ev))
    };
    let (r, sent, ev) = go(None)?;
    if let Err(e) = r {
        return violation("rejected", format!("a correct login is rejected: {} ({ev:?})", brief(&e)));
    }
    c.count("logins in sync", 1);
    for at in 0..sent {
        let (r, _, _) = go(Some((at, d, false)))?;
        match r {
            Ok(()) => return violation("accepted", format!("packet {at} of {sent} of the login is out of sync by {d}, the login succeeded ({ev:?})")),
            Err(e) => ensure!(kind(&e) == Kind::OutOfSync, "no out-of-sync error", "packet {at} of {sent} of the login is out of sync by {d}: {}", brief(&e)),
        }
        c.count("logins out of sync", 1);
    }
    c.feed(&(plugin, cfg.full, cfg.force_switch, ask, d, greeting.plugin));
    Ok(())
}

pub fn main() {
    Check::new("C03", "one case = one exchange with at most one (or from one on all) wrong sequence numbers; distinct by layout, frame and difference")
        .assume("the due number continues from the client's last packet")
        .scale(10)
        .group("wrong", 8000, 300_000, wrong)
        .group("right", 800, 20_000, right)
        .group("wrap", 600, 20_000, wrap)
        .group_on(6, "big", 24, 200, big)
        .group("login", 400, 10_000, login)
        .require("out-of-sync errors", 3000)
        .require("exchanges past 255", 200)
        .require("logins out of sync", 500)
        .main()
}
