//! C01: commands reach the server as well-formed packets of any size.
use {
    std::sync::{Arc, Mutex},
    vharness::{kit::*, server::Login, *},
};

type Log = Arc<Mutex<Vec<Cmd>>>;

fn echo(log: &Log) -> impl Handler {
    let log = log.clone();
    move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| {
        match &cmd {
            Cmd::Query(_) => s.ok(io, &OkSpec::default()),
            Cmd::Prepare(sql) => {
                let n = sql.iter().filter(|c| **c == b'?').count();
                s.prepared(io, sql, n, &[]);
            }
            Cmd::Execute { .. } => s.ok(io, &OkSpec::default()),
            Cmd::LongData { .. } | Cmd::Close(_) | Cmd::Quit => {}
            Cmd::Other(_) => s.err(io, &ErrSpec::new(1047, "08S01", "Unknown command")),
        }
        lock(&log).push(cmd);
    }
}

fn frames_of(payload: usize) -> u64 {
    (payload / wire::MAX + 1) as u64
}

/// Sends `sql` with one of the calls and checks what arrived.
async fn one_sql(conn: &mut mysql_connector::Connection, link: &Link, log: &Log, how: u64, sql: &str) -> CaseResult {
    lock(log).clear();
    let before = {
        let g = link.lock();
        (g.io.frames, g.io.packets)
    };
    match how {
        0 => {
            must(conn.execute_query(sql).await, "command failed", "execute_query")?;
        }
        1 => {
            let rs = must(conn.query::<Row>(sql).await, "command failed", "query")?;
            must(rs.finish().await, "command failed", "finish")?;
        }
        _ => {
            must(conn.prepare_statement(sql).await, "command failed", "prepare_statement")?;
        }
    }
    frames_ok(link)?;
    let got = std::mem::take(&mut *lock(log));
    let want = if how < 2 { Cmd::Query(sql.as_bytes().to_vec()) } else { Cmd::Prepare(sql.as_bytes().to_vec()) };
    ensure!(got.len() == 1, "packet count", "{} packets arrived for one command", got.len());
    ensure!(
        got[0] == want,
        "payload altered",
        "the server received {} for the text {}",
        brief(&got[0]),
        brief(sql)
    );
    let g = link.lock();
    let frames = g.io.frames - before.0;
    ensure!(
        frames == frames_of(sql.len() + 1),
        "framing",
        "{frames} fragments for a payload of {} bytes, expected {}",
        sql.len() + 1,
        frames_of(sql.len() + 1)
    );
    Ok(())
}

fn small(c: &mut Case) -> CaseResult {
    let plan = IoPlan::random(&mut c.rng);
    c.note(format!("plan {plan:?}"));
    let log = Log::default();
    let mut srv = Server::new(echo(&log));
    srv.greeting.caps = if c.rng.coin() { caps::MODERN } else { caps::MODERN & !caps::DEPRECATE_EOF };
    let (link, session) = srv.link(plan);
    drive("session", async {
        let mut conn = must_connect(&link).await?;
        frames_ok(&link)?;
        for _ in 0..c.rng.range(1, 12) {
            let n = match c.rng.below(8) {
                0 => 0,
                1 => c.rng.usize(4),
                2 => c.rng.range(200, 300) as usize,
                3 => c.rng.range(65_000, 66_000) as usize,
                _ => c.rng.usize(120),
            };
            let how = c.rng.below(3);
            let mut sql = if c.rng.coin() { c.rng.ascii(n) } else { c.rng.text(n) };
            sql = sql.replace('?', "q");
            if how == 2 && c.rng.coin() {
                sql.push_str(&"?".repeat(c.rng.usize(5)));
            }
            c.note(format!("how {how} length {}", sql.len()));
            c.feed(&(how, sql.len()));
            c.count("commands", 1);
            one_sql(&mut conn, &link, &log, how, &sql).await?;
        }
        lock(&log).clear();
        must(conn.disconnect().await, "command failed", "disconnect")?;
        frames_ok(&link)?;
        let got = lock(&log).clone();
        ensure!(got == [Cmd::Quit], "quit", "disconnect sent {got:?}");
        Ok(())
    })?;
    let s = lock(&session);
    ensure!(s.protocol_errors.is_empty(), "protocol", "{:?}", s.protocol_errors);
    c.count("fragments", link.lock().io.frames);
    c.count("not-ready answers", link.lock().pendings);
    Ok(())
}

fn large_plan(c: &mut Case) -> IoPlan {
    let mut plan = IoPlan { seed: c.rng.u64(), transcript: 0, ..Default::default() };
    plan.wchunk = match c.rng.below(4) {
        0 => Chunk::Upto(1 << 16),
        1 => Chunk::Upto(3 << 20),
        _ => Chunk::All,
    };
    plan.pend = *c.rng.pick(&[0, 100]);
    plan
}

/// Commands that fill buffers of common sizes exactly, with and without the fragment's header.
fn round_text(c: &mut Case) -> CaseResult {
    let plan = large_plan(c);
    c.note(format!("plan {plan:?}"));
    let log = Log::default();
    let (link, _) = Server::new(echo(&log)).link(plan);
    drive("session", async {
        let mut conn = must_connect(&link).await?;
        for _ in 0..c.rng.range(1, 5) {
            let n = (gen::round_size(&mut c.rng, 6 << 20) - 1).max(16);
            let how = c.rng.below(3);
            let mut sql = vec![b'x'; n];
            for _ in 0..500 {
                let p = c.rng.usize(n);
                sql[p] = b'a' + c.rng.below(26) as u8;
            }
            sql[n - 8..].copy_from_slice(b"the end.");
            let sql = String::from_utf8(sql).map_err(|e| Fail::Inconclusive(e.to_string()))?;
            c.note(format!("how {how} length {n}"));
            c.feed(&(how, n));
            c.count("commands of round sizes", 1);
            one_sql(&mut conn, &link, &log, how, &sql).await?;
        }
        Ok(())
    })?;
    c.count("fragments", link.lock().io.frames);
    Ok(())
}

fn large_text(c: &mut Case) -> CaseResult {
    let plan = large_plan(c);
    // payload = command byte + text, around multiples of the maximum
    const D: [i64; 6] = [-2, -1, 0, 1, 2, 1000];
    let base = if c.idx < 12 { 1 + (c.idx / 6) as i64 } else { c.rng.range(1, 4) as i64 };
    let n = (base * wire::MAX as i64 - 1 + D[(c.idx % 6) as usize]) as usize;
    let how = c.rng.below(3);
    let mut sql = vec![b'x'; n];
    for _ in 0..2000 {
        let p = c.rng.usize(n);
        sql[p] = b'a' + c.rng.below(26) as u8;
    }
    for k in 1..=n / wire::MAX {
        // distinct bytes around the seams
        for d in 0..16 {
            let p = k * wire::MAX - 9 + d;
            if p < n {
                sql[p] = b'A' + d as u8;
            }
        }
    }
    let sql = String::from_utf8(sql).map_err(|e| Fail::Inconclusive(e.to_string()))?;
    c.note(format!("how {how} text length {n} plan {plan:?}"));
    c.feed(&(how, n));
    let log = Log::default();
    let (link, _) = server(echo(&log), plan);
    drive("large command", async {
        let mut conn = must_connect(&link).await?;
        one_sql(&mut conn, &link, &log, how, &sql).await?;
        // the next command starts at 0 again
        one_sql(&mut conn, &link, &log, 0, "select 1").await
    })?;
    c.count("large packets", 1);
    if (n + 1) % wire::MAX == 0 {
        c.count("exact multiples", 1);
    }
    Ok(())
}

/// Executions around the limit where byte strings are sent separately: whatever way they take,
/// they arrive well-formed and complete.
fn large_params(c: &mut Case) -> CaseResult {
    use mysql_connector::types::Value;
    let plan = large_plan(c);
    const D: [i64; 8] = [-1, 0, 1, 2, -40, 7, 100_000, -16];
    let d = D[(c.idx % 8) as usize];
    let total = if c.idx < 8 { wire::MAX as i64 } else { wire::MAX as i64 * c.rng.range(1, 3) as i64 };
    // one or two byte strings and a number
    let two = c.idx >= 8 && c.rng.coin();
    let overhead = 10 + 1 + 1 + if two { 6 } else { 4 } + 8;
    let room = (total + d - overhead) as usize;
    let mut values = vec![Value::Long(c.rng.u64() as i64)];
    if two {
        let a = c.rng.usize(room - 20);
        let hdr = |n: usize| match n {
            0..=250 => 1,
            251..=65535 => 3,
            65536..=0xffffff => 4,
            _ => 9,
        };
        let b = room - a - hdr(a) - 4;
        values.push(Value::Bytes(c.rng.filler(a)));
        values.push(Value::Bytes(c.rng.filler(b)));
    } else {
        let hdr = if room - 4 < 0x1000000 { 4 } else { 9 };
        values.push(Value::Bytes(c.rng.filler(room - hdr)));
    }
    let lens: Vec<usize> = values.iter().map(|v| if let Value::Bytes(b) = v { b.len() } else { 8 }).collect();
    c.note(format!("value lengths {lens:?} plan {plan:?}"));
    c.feed(&lens);
    let log = Log::default();
    let (link, _) = server(echo(&log), plan);
    drive("large execution", async {
        let mut conn = must_connect(&link).await?;
        let mut st = must(conn.prepare_statement(&"?".repeat(values.len())).await, "command failed", "prepare")?;
        for round in 0..2 {
            lock(&log).clear();
            must(st.execute(&values).await, "command failed", "execute")?;
            frames_ok(&link)?;
            let got = std::mem::take(&mut *lock(&log));
            let Some(Cmd::Execute { params, .. }) = got.last() else {
                return violation("packet count", format!("the last packet is not an execution: {}", brief(&got.last())));
            };
            let params = match params {
                Ok(p) => p,
                Err(e) => return violation("payload altered", format!("round {round}: execution unreadable: {e}")),
            };
            for (v, p) in values.iter().zip(params) {
                let ok = match (v, &p.val) {
                    (Value::Bytes(a), PVal::Bytes(b)) => a == b,
                    (Value::Long(a), PVal::Int(b)) => a == b,
                    _ => false,
                };
                ensure!(ok, "payload altered", "round {round}: sent {}, arrived {}", brief(v), brief(p));
            }
            c.count("long data packets", got.len() as u64 - 1);
        }
        Ok(())
    })?;
    c.count("large packets", 2);
    Ok(())
}

/// The numbering of the login exchange continues whatever packets it takes.
struct Talk(u64, Rng);

impl Login for Talk {
    fn packet(&mut self, io: &mut PeerIo, s: &mut Session, pkt: &[u8], first: bool) -> bool {
        if first {
            match wire::parse_login(pkt) {
                Some(l) => s.login = l,
                None => s.protocol_errors.push("unreadable login packet".into()),
            }
        }
        let done = match (self.0, first) {
            // switch to the same plugin with a new challenge
            (1 | 3, true) => {
                let mut p = vec![0xFE];
                p.extend_from_slice(&s.login.plugin.clone().unwrap_or_default());
                p.push(0);
                p.extend((0..20).map(|_| 1 + self.1.below(250) as u8));
                p.push(0);
                io.send(&p);
                false
            }
            (2 | 3, _) => {
                io.send(&[1, 3]);
                true
            }
            _ => true,
        };
        if done {
            io.send(&OkSpec::default().encode(0));
        }
        done
    }
}

fn login(c: &mut Case) -> CaseResult {
    use mysql_connector::types::AuthPlugin;
    let mode = c.idx % 4;
    let plan = IoPlan::random(&mut c.rng);
    let log = Log::default();
    let mut srv = Server::new(echo(&log)).login(Talk(mode, c.rng.fork()));
    if mode >= 2 {
        srv.greeting.plugin = "caching_sha2_password".into();
    }
    let (link, session) = srv.link(plan);
    let mut o = opts(once(link.clone()));
    o.auth_plugin = match (mode >= 2, c.rng.coin()) {
        (_, false) => None,
        (true, _) => Some(AuthPlugin::Sha2),
        (false, _) => Some(AuthPlugin::Native),
    };
    let n = c.rng.usize(40);
    o.password = c.rng.ascii(n);
    o.user = "u".repeat(c.rng.usize(80));
    if c.rng.coin() {
        o.db_name = Some("d".repeat(c.rng.range(1, 60) as usize));
    }
    o.max_allowed_packet = if c.rng.coin() { None } else { Some(1 << 24) };
    c.note(format!("mode {mode} user {} password {n} db {:?}", o.user.len(), o.db_name));
    c.feed(&(mode, n, o.user.len()));
    let (user, db) = (o.user.clone(), o.db_name.clone());
    drive("login", async {
        let conn = mysql_connector::Connection::connect(std::sync::Arc::new(o)).await;
        frames_ok(&link)?;
        let mut conn = must(conn, "connect failed", "connect")?;
        one_sql(&mut conn, &link, &log, 0, "select 1").await
    })?;
    let s = lock(&session);
    ensure!(s.protocol_errors.is_empty(), "protocol", "{:?}", s.protocol_errors);
    ensure!(
        s.login.user == user.as_bytes() && s.login.db == db.map(String::into_bytes),
        "payload altered",
        "login packet {:?}",
        s.login
    );
    c.count("logins", 1);
    Ok(())
}

/// More than 256 fragments in one packet.
fn huge(c: &mut Case) -> CaseResult {
    let n = wire::MAX * 257 + c.rng.usize(1000);
    let log = Log::default();
    // the server answers by length only
    let (link, _) = server(
        {
            let log = log.clone();
            move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| {
                if let Cmd::Query(q) = cmd {
                    lock(&log).push(Cmd::Other(q.len().to_le_bytes().to_vec()));
                }
                s.ok(io, &OkSpec::default());
            }
        },
        IoPlan { transcript: 0, ..Default::default() },
    );
    drive("huge command", async {
        let mut conn = must_connect(&link).await?;
        let sql = "x".repeat(n);
        must(conn.execute_query(&sql).await, "command failed", "execute_query")?;
        frames_ok(&link)?;
        ensure!(
            *lock(&log) == [Cmd::Other(n.to_le_bytes().to_vec())],
            "payload altered",
            "length {} arrived for {n}",
            brief(&*lock(&log))
        );
        Ok(())
    })?;
    c.count("fragments", link.lock().io.frames);
    Ok(())
}

pub fn main() {
    Check::new(
        "C01",
        "one case = one connection over a random conforming transport; distinct by the calls and lengths used",
    )
    .assume("the fake server reassembles packets by the documented framing rules")
    .scale(4)
        .group("small", 3000, 60_000, small)
        .group("round", 120, 4000, round_text)
    .group("login", 800, 20_000, login)
    .group_on(4, "large_text", 16, 120, large_text)
    .group_on(4, "large_params", 12, 120, large_params)
    .group_on(1, "huge", 0, 1, huge)
    .require("commands", 1000)
    .require("large packets", 8)
    .require("exact multiples", 1)
    .main()
}
