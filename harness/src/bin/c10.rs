//! C10: server errors surface faithfully and leave the connection usable.
use {
    mysql_connector::{types::Value, Connection, Error},
    std::sync::Arc,
    vharness::{auth::*, gen, kit::*, *},
};

fn error(rng: &mut Rng) -> ErrSpec {
    let mut e = gen::err(rng);
    match rng.below(8) {
        0 => e.code = *rng.pick(&[0, 1, 255, 256, 1040, 1045, 1064, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]),
        1 => e.message = rng.pick(&["", "#", "##00000", "#42000You", "\0", "\u{FEFF}x", "\"quoted\" \\ \n"]).to_string(),
        2 => {
            let n = *rng.pick(&[511usize, 512, 65_535, 65_536, 70_000]);
            e.message = rng.ascii(n);
        }
        3 => e.state = Some(*b"00000"),
        4 => e.message = rng.text(30),
        _ => {}
    }
    e
}

fn expect_error<T>(r: Result<T, Error>, want: &ErrSpec, at: &str) -> CaseResult {
    match r {
        Ok(_) => violation("error became success", format!("{at}: success instead of {}", brief(want))),
        Err(e) => {
            ensure!(is_server(&e, want), "error altered", "{at}: {} instead of {}", brief(&e), brief(want));
            Ok(())
        }
    }
}

/// Where in the exchange the server gives up.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum At {
    /// instead of the response
    Start,
    /// instead of a definition (of a parameter or column)
    Def(usize),
    /// instead of the EOF after the definitions
    DefEof,
    /// after this many rows
    Row(usize),
    /// second result of the statement: instead of its header
    Start2,
    Row2(usize),
    /// within the rows of the second result, after a first one with rows
    Row3(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum How {
    ExecuteQuery,
    Query,
    Prepare,
    Execute,
    PQuery,
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Use {
    Next,
    Collect,
    One,
    Finish,
    FinishInner,
    /// read a few rows, then `cleanup`
    Cleanup(usize),
    /// read a few rows, then forget about it
    Abandon(usize),
}

struct Plan {
    how: How,
    at: At,
    err: ErrSpec,
    cols: Vec<ColSpec>,
    rows: Vec<Row>,
    params: usize,
}

struct Srv {
    plan: Arc<std::sync::Mutex<Option<Plan>>>,
    rng: Rng,
}

impl Srv {
    /// A response that breaks off; returns false if the error comes before the end of the result.
    fn respond(&mut self, s: &Session, io: &mut PeerIo, p: &Plan, binary: bool) {
        let enc = |rng: &mut Rng, r: &Row| if binary { gen::bin_row(rng, &p.cols, r) } else { gen::text_row(rng, &p.cols, r) };
        let header = |io: &mut PeerIo, upto: usize| {
            let mut h = Vec::new();
            wire::lenenc(&mut h, p.cols.len() as u64);
            io.send(&h);
            for c in &p.cols[..upto] {
                io.send(&c.encode());
            }
        };
        match p.at {
            At::Start => s.err(io, &p.err),
            At::Def(k) => {
                header(io, k.min(p.cols.len() - 1));
                s.err(io, &p.err);
            }
            At::DefEof => {
                header(io, p.cols.len());
                s.err(io, &p.err);
            }
            At::Row(k) => {
                s.header(io, &p.cols);
                for r in p.rows.iter().take(k) {
                    io.send(&enc(&mut self.rng, r));
                }
                s.err(io, &p.err);
            }
            At::Start2 => {
                s.header(io, &p.cols);
                for r in &p.rows {
                    io.send(&enc(&mut self.rng, r));
                }
                s.end(io, &OkSpec { status: 2 | wire::status::MORE_RESULTS, ..Default::default() });
                s.err(io, &p.err);
            }
            At::Row3(k) => {
                s.header(io, &p.cols);
                for r in &p.rows {
                    io.send(&enc(&mut self.rng, r));
                }
                s.end(io, &OkSpec { status: 2 | wire::status::MORE_RESULTS, ..Default::default() });
                s.header(io, &p.cols);
                for r in p.rows.iter().take(k) {
                    io.send(&enc(&mut self.rng, r));
                }
                s.err(io, &p.err);
            }
            At::Row2(k) => {
                s.ok(io, &OkSpec { status: 2 | wire::status::MORE_RESULTS, ..Default::default() });
                s.header(io, &p.cols);
                for r in p.rows.iter().take(k) {
                    io.send(&enc(&mut self.rng, r));
                }
                s.err(io, &p.err);
            }
        }
    }
}

impl Handler for Srv {
    fn cmd(&mut self, s: &mut Session, io: &mut PeerIo, cmd: Cmd) {
        match &cmd {
            Cmd::Query(q) if q == b"check" => {
                let cols = [ColSpec::new("a", typ::LONGLONG, 0)];
                s.result(io, &cols, &[wire::text_row(&[Some(b"4711".to_vec())])], &OkSpec::default());
            }
            Cmd::Query(_) => {
                let p = lock(&self.plan).take();
                if let Some(p) = p {
                    self.respond(s, io, &p, false);
                }
            }
            Cmd::Prepare(q) => {
                let plan = self.plan.clone();
                let plan = lock(&plan);
                let Some(p) = &*plan else { return };
                if p.how != How::Prepare {
                    s.prepared(io, q, 0, &p.cols);
                    return;
                }
                if p.at == At::Start {
                    s.err(io, &p.err);
                    return;
                }
                io.send(&wire::prepare_ok(1, p.cols.len() as u16, p.params as u16, 0));
                let mut k = match p.at {
                    At::Def(k) => k % (p.params + p.cols.len()),
                    _ => p.params + p.cols.len() - 1,
                };
                for group in [vec![ColSpec::new("?", typ::VARSTRING, 0); p.params], p.cols.clone()] {
                    for c in &group {
                        if k == 0 {
                            s.err(io, &p.err);
                            return;
                        }
                        k -= 1;
                        io.send(&c.encode());
                    }
                    if !group.is_empty() && !s.deprecate_eof() {
                        io.send(&OkSpec { status: 2, ..Default::default() }.old_eof());
                    }
                }
            }
            Cmd::Execute { .. } => {
                let p = lock(&self.plan).take();
                if let Some(p) = p {
                    self.respond(s, io, &p, true);
                }
            }
            _ => {}
        }
    }
}

/// Calls on a result set whose rows end in an error.
macro_rules! rows_then_error {
    ($c:expr, $rs:expr, $rows:expr, $err:expr, $use:expr) => {{
        let (rows, err, how): (&[Row], &ErrSpec, Use) = ($rows, $err, $use);
        let mut rs = $rs;
        match how {
            Use::Next => {
                for (i, w) in rows.iter().enumerate() {
                    match must(rs.next().await, "rows before the error", "a row before the error")? {
                        Some(r) => ensure!(same_row(&r, w), "rows before the error", "row {i}: {} instead of {}", brief(&r), brief(w)),
                        None => return violation("error became the end", format!("the end after {i} rows, an error was due after {}", rows.len())),
                    }
                }
                expect_error(rs.next().await, err, "next")?;
                for _ in 0..2 {
                    match rs.next().await {
                        Ok(None) => {}
                        other => return violation("after the error", format!("next after the error gave {} instead of the end", brief(other.map(|_| "a row")))),
                    }
                }
                $c.count("ends after errors", 1);
                if $c.rng.coin() {
                    ensure!(rs.finish().await.is_err(), "error became success", "finish gave a summary though the rows ended in an error");
                }
            }
            Use::Collect => {
                expect_error(rs.collect().await, err, "collect")?;
                match rs.next().await {
                    Ok(None) => {}
                    other => return violation("after the error", format!("next after the error gave {} instead of the end", brief(other.map(|_| "a row")))),
                }
            }
            Use::One => {
                // the first row may have been taken before the error came
                match rs.one().await {
                    Ok(Some(r)) if rows.first().is_some_and(|w| same_row(&r, w)) => {}
                    Ok(x) => return violation("error became success", format!("one gave {}", brief(x))),
                    Err(e) => ensure!(is_server(&e, err), "error altered", "one: {} instead of {}", brief(&e), brief(err)),
                }
            }
            Use::Finish => expect_error(rs.finish().await, err, "finish")?,
            Use::FinishInner => expect_error(rs.finish_into_inner().await.map(|_| ()), err, "finish_into_inner")?,
            Use::Cleanup(n) | Use::Abandon(n) => {
                for _ in 0..n.min(rows.len()) {
                    must(rs.next().await, "rows before the error", "a row before the error")?;
                }
            }
        }
    }};
}

async fn one(c: &mut Case, conn: &mut Connection, p: &Plan, u: Use) -> CaseResult {
    // what comes before the error
    let (before, first): (&[Row], bool) = match p.at {
        At::Start | At::Def(_) | At::DefEof => (&[], false),
        At::Row(k) => (&p.rows[..k], true),
        At::Start2 | At::Row2(_) | At::Row3(_) => (&[], true),
    };
    let second = matches!(p.at, At::Start2 | At::Row2(_) | At::Row3(_));
    match p.how {
        How::Prepare => expect_error(conn.prepare_statement("p").await.map(|_| ()), &p.err, "prepare")?,
        How::ExecuteQuery if !first => {
            let r = conn.execute_query("x").await;
            if p.at == At::Start {
                expect_error(r.map(|_| ()), &p.err, "execute_query")?;
            } else {
                // rows were announced: that alone is an error
                ensure!(r.is_err(), "error became success", "execute_query: success");
                c.count("rows where none were expected", 1);
            }
        }
        How::ExecuteQuery => {
            let r = conn.execute_query("x").await;
            ensure!(matches!(p.at, At::Row2(_)) == r.is_ok(), "first result", "execute_query gave {}", brief(r.map(|_| ())));
            if matches!(u, Use::Cleanup(_)) {
                expect_error(conn.cleanup().await.map(|_| ()), &p.err, "cleanup")?;
                c.count("errors reported by cleanup", 1);
            }
        }
        How::Query | How::PQuery => {
            macro_rules! go {
                ($rs:expr) => {
                    match $rs {
                        Err(e) => {
                            ensure!(!first, "first result", "the query failed though its first result is fine: {}", brief(&e));
                            expect_error::<()>(Err(e), &p.err, "query")?;
                        }
                        Ok(rs) => {
                            ensure!(first, "error became success", "the query gave a result set instead of {}", brief(&p.err));
                            if let (true, Use::Cleanup(n)) = (matches!(p.at, At::Start2 | At::Row3(_)), u) {
                                // `cleanup` skips the rest of the first result, too
                                let mut rs = rs;
                                for w in p.rows.iter().take(n) {
                                    let r = must(rs.next().await, "first result", "a row of the first result")?;
                                    ensure!(r.as_ref().is_some_and(|r| same_row(r, w)), "first result", "the first result is wrong");
                                }
                                c.count("results skipped before the one with the error", 1);
                            } else if second {
                                // the first result is complete
                                let mut rs = rs;
                                let want: &[Row] = if matches!(p.at, At::Start2 | At::Row3(_)) { &p.rows } else { &[] };
                                let got = must(rs.collect().await, "first result", "collecting the first result")?;
                                ensure!(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| same_row(a, b)), "first result", "the first result is wrong");
                            } else {
                                rows_then_error!(c, rs, before, &p.err, u);
                            }
                        }
                    }
                };
            }
            if p.how == How::Query {
                go!(conn.query::<Row>("x").await);
            } else {
                let mut ps = must(conn.prepare_statement("p").await, "prepare", "prepare")?;
                go!(ps.query::<Value, Row>(&[]).await);
            }
            if first && matches!(u, Use::Cleanup(_)) {
                expect_error(conn.cleanup().await.map(|_| ()), &p.err, "cleanup")?;
                c.count("errors reported by cleanup", 1);
            }
        }
        How::Execute => {
            let mut ps = must(conn.prepare_statement("p").await, "prepare", "prepare")?;
            let r = ps.execute::<Value>(&[]).await;
            match p.at {
                At::Start => expect_error(r.map(|_| ()), &p.err, "execute")?,
                At::Row2(_) => ensure!(r.is_ok(), "first result", "execute gave {}", brief(r.map(|_| ()))),
                _ => ensure!(r.is_err(), "error became success", "execute: success"),
            }
        }
    }
    Ok(())
}

fn commands(c: &mut Case) -> CaseResult {
    let dep = c.rng.coin();
    let n = c.rng.range(1, 5);
    let plan: Arc<std::sync::Mutex<Option<Plan>>> = Default::default();
    let rng = c.rng.fork();
    let mut srv = Server::new(Srv { plan: plan.clone(), rng });
    if !dep {
        srv.greeting.caps &= !caps::DEPRECATE_EOF;
    }
    let io = if c.rng.coin() { IoPlan::default() } else { IoPlan::random(&mut c.rng) };
    let (link, session) = srv.link(io);
    c.note(format!("deprecate eof {dep}"));
    c.feed(&dep);
    drive("errors", async {
        let mut conn = must_connect(&link).await?;
        for _ in 0..n {
            let r = &mut c.rng;
            let cols = gen::cols(r, 1 + c.idx as usize % 4);
            let n_rows = r.usize(5);
            let rows: Vec<Row> = (0..n_rows).map(|_| cols.iter().map(|x| gen::cell(r, x, 50)).collect()).collect();
            let how = *r.pick(&[How::ExecuteQuery, How::Query, How::Query, How::Prepare, How::Execute, How::PQuery, How::PQuery]);
            let params = r.usize(4);
            let at = match (r.below(11), how) {
                (0 | 1, _) => At::Start,
                (_, How::Prepare) => At::Def(r.usize(8)),
                (2, _) => At::Def(r.usize(cols.len())),
                (3, _) if !dep => At::DefEof,
                (4, _) => At::Start2,
                (5, _) => At::Row2(r.usize(n_rows + 1)),
                (6 | 7, _) => At::Row3(r.usize(n_rows + 1)),
                _ => At::Row(r.usize(n_rows + 1)),
            };
            let n = r.usize(4);
            let u = *r.pick(&[Use::Next, Use::Next, Use::Collect, Use::One, Use::Finish, Use::FinishInner, Use::Cleanup(n), Use::Abandon(n)]);
            let p = || Plan { how, at, err: ErrSpec::new(0, "00000", ""), cols: cols.clone(), rows: rows.clone(), params };
            let err = error(r);
            let (mut mine, mut theirs) = (p(), p());
            mine.err = err.clone();
            theirs.err = err;
            c.note(format!("{how:?} error at {at:?}, {u:?}: {}", brief(&mine.err)));
            c.note(format!("  rows {}", brief(&rows)));
            c.feed(&(how, at, u));
            *lock(&plan) = Some(theirs);
            one(c, &mut conn, &mine, u).await?;
            c.count(&format!("errors for {how:?}"), 1);
            *lock(&plan) = None;
            // the connection is usable
            match c.rng.below(3) {
                0 => {
                    let mut rs = must(conn.query::<Row>("check").await, "next command", "the command after the error")?;
                    let got = must(rs.collect().await, "next command", "the rows of the command after the error")?;
                    ensure!(got == vec![vec![Value::Long(4711)]], "next command", "the command after the error gave {}", brief(got));
                    c.count("commands after errors", 1);
                }
                1 => {
                    let mut rs = must(conn.query::<Row>("check").await, "next command", "the command after the error")?;
                    let got = must(rs.next().await, "next command", "the rows of the command after the error")?;
                    ensure!(got == Some(vec![Value::Long(4711)]), "next command", "the command after the error gave {}", brief(got));
                    c.count("commands after errors", 1);
                }
                _ => {}
            }
        }
        must(conn.disconnect().await, "disconnect", "disconnect after errors")?;
        Ok(())
    })?;
    frames_ok(&link)?;
    let s = lock(&session);
    ensure!(s.protocol_errors.is_empty() && s.quits == 1, "protocol", "{:?}, {} quits", s.protocol_errors, s.quits);
    Ok(())
}

/// Instead of a greeting.
fn greeting(c: &mut Case) -> CaseResult {
    struct Refuse(Vec<u8>);
    impl vharness::stream::Peer for Refuse {
        fn start(&mut self, io: &mut PeerIo) {
            io.send(&self.0);
            io.closed = true;
            io.item(Item::Eof);
        }
        fn packet(&mut self, _: &mut PeerIo, _: Vec<u8>) {}
    }
    let mut e = error(&mut c.rng);
    if c.rng.coin() {
        e.state = None;
        if e.message.starts_with('#') {
            e.message.insert(0, 'x');
        }
    }
    c.note(format!("{}", brief(&e)));
    c.feed(&(e.code, e.state, &e.message));
    let io = if c.rng.coin() { IoPlan::default() } else { IoPlan::random(&mut c.rng) };
    let link = Link::new(Box::new(Refuse(e.encode())), io);
    drive("greeting", async {
        expect_error(connect(&link).await.map(|_| ()), &e, "connect")
    })?;
    c.count("errors instead of the greeting", 1);
    Ok(())
}

fn login(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let plugin = *r.pick(&Plugin::ALL);
    let deny = *r.pick(&[Deny::AtLogin, Deny::AfterSwitch, Deny::AtMore, Deny::AfterFast, Deny::AtKey, Deny::AtEnd]);
    let pass = if r.chance(1, 4) { String::new() } else { r.ascii(9) };
    let key = key_bits(1024).clone();
    let cfg = AuthCfg {
        user: "user".into(),
        pass: pass.clone(),
        plugin,
        full: r.coin(),
        force_switch: r.coin(),
        nonce: nonce(r),
        switch_nonce: nonce(r),
        switch_nul: true,
        secure: false,
        pem: random_pem(r, &key),
        key,
        deny,
        error: error(r),
        ok: OkSpec::default(),
    };
    c.note(format!("{plugin:?} {deny:?} {}", brief(&cfg.error)));
    let greeting = Greeting { nonce: cfg.nonce.clone(), ..Default::default() };
    let (srv, log) = AuthServer::new(cfg.clone());
    let (link, _) = Server::new(|_: &mut Session, _: &mut PeerIo, _: Cmd| {}).greeting(greeting).login(srv).link(IoPlan::default());
    let mut o = opts(once(link.clone()));
    o.password = pass;
    o.auth_plugin = Some(plugin.option());
    o.allow_cleartext_password = true;
    let res = drive("login", async { Ok(Connection::connect(Arc::new(o)).await.map(|_| ())) })?;
    let log = lock(&log);
    c.feed(&(&log.events, plugin as u8));
    match &log.refused {
        Some(e) => {
            expect_error(res, e, &format!("connect, {:?}", log.events))?;
            c.count("refused logins", 1);
        }
        None => ensure!(res.is_ok() == log.accepted, "login", "{} after {:?}", brief(res), log.events),
    }
    Ok(())
}

/// Errors while the client asks for the server's packet limit.
fn settings(c: &mut Case) -> CaseResult {
    struct S {
        at: u64,
        err: ErrSpec,
        logged_in: bool,
    }
    impl vharness::stream::Peer for S {
        fn start(&mut self, io: &mut PeerIo) {
            io.send(&Greeting::default().encode());
        }
        fn packet(&mut self, io: &mut PeerIo, _: Vec<u8>) {
            if !self.logged_in {
                self.logged_in = true;
                io.login = false;
                io.send(&OkSpec::default().encode(0));
                return;
            }
            if self.at > 0 {
                io.send(&[1]);
            }
            if self.at > 1 {
                io.send(&ColSpec::new("@@max_allowed_packet", typ::LONGLONG, wire::UNSIGNED).encode());
            }
            io.send(&self.err.encode());
        }
    }
    let e = error(&mut c.rng);
    let at = c.rng.below(3);
    c.note(format!("after {at} packets: {}", brief(&e)));
    c.feed(&(at, e.code, &e.message));
    let link = Link::new(Box::new(S { at, err: e.clone(), logged_in: false }), IoPlan::default());
    let mut o = opts(once(link.clone()));
    o.max_allowed_packet = None;
    drive("settings", async { expect_error(Connection::connect(Arc::new(o)).await.map(|_| ()), &e, "connect") })?;
    c.count("errors while asking for the packet limit", 1);
    Ok(())
}

pub fn main() {
    Check::new("C10", "one case = a few failing exchanges on one connection; distinct by position, kind of call and way of reading")
        .assume("messages are UTF-8 (the client has no other way to hold them)")
        .assume("an error that ends rows the user abandoned belongs to nobody; only an explicit cleanup reports it")
        .scale(6)
        .group("commands", 16_000, 600_000, commands)
        .group("greeting", 2000, 60_000, greeting)
        .group("login", 2500, 60_000, login)
        .group("settings", 1000, 30_000, settings)
        .require("errors for Prepare", 1000)
        .require("errors for Query", 1000)
        .require("errors for PQuery", 1000)
        .require("errors for Execute", 1000)
        .require("errors for ExecuteQuery", 1000)
        .require("refused logins", 500)
        .require("errors reported by cleanup", 500)
        .require("commands after errors", 5000)
        .require("ends after errors", 500)
        .main()
}
