//! C15: malformed server data is an error: no panic, hang or huge allocation.
use {
    mysql_connector::{model::{FromQueryResult, IntoQuery}, types::Value, Connection},
    std::sync::{Arc, Mutex},
    vharness::{
        auth::*,
        gen,
        kit::*,
        models,
        runner::{alloc, run_limit},
        script::{self, Call, Consume, Ev, Exec, Scripted, Shape, Step},
        stream::Peer,
        wire, *,
    },
};

/// Memory a client may use whatever the server says: the largest fragment and its copies.
const CONSTANT: usize = 64 << 20;

// ---------------------------------------------------------------- damage

const EDGE: &[u8] = &[0, 1, 2, 3, 4, 5, 8, 0x0b, 0x0c, 0x7F, 0x80, 0xF0, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF];

fn huge(r: &mut Rng) -> Vec<u8> {
    match r.below(9) {
        0 => vec![0xFC, 0xFF, 0xFF],
        1 => vec![0xFD, 0xFF, 0xFF, 0xFF],
        2 => vec![0xFE, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF],
        3 => vec![0xFE, 0, 0, 0, 0, 0, 0, 0, 0x80],
        4 => vec![0xFE, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F],
        5 => vec![0xFE, 0, 0, 0, 0x40, 0, 0, 0, 0],
        6 => vec![0xFF],
        7 => vec![0xFB],
        _ => {
            let mut o = Vec::new();
            wire::lenenc(&mut o, r.edgy(64));
            o
        }
    }
}

/// Damages the payload of one packet.
fn damage(r: &mut Rng, p: &mut Vec<u8>) {
    let n = 1 + r.chance(1, 3) as u64 + r.chance(1, 10) as u64 * 3;
    for _ in 0..n {
        let len = p.len();
        match r.below(14) {
            0 if len > 0 => {
                let i = r.usize(len);
                p[i] ^= 1 << r.below(8);
            }
            1..=3 if len > 0 => {
                // the first bytes decide most
                let i = if r.coin() { r.usize(len.min(12)) } else { r.usize(len) };
                p[i] = *r.pick(EDGE);
            }
            4 if len > 0 => {
                let i = r.usize(len);
                p[i] = r.u8();
            }
            5 | 6 => p.truncate(r.usize(len + 1)),
            7 => {
                let n = r.usize(20);
                let b = r.bytes(n);
                p.extend(b);
            }
            8 => {
                let i = r.usize(len + 1);
                let b = huge(r);
                p.splice(i..i, b);
            }
            9 | 10 if len > 0 => {
                // replace a length
                let i = r.usize(len);
                let b = huge(r);
                p.splice(i..i + 1, b);
            }
            11 if len > 1 => {
                let i = r.usize(len);
                let k = r.range(1, 8.min((len - i) as u64)) as usize;
                p.drain(i..i + k);
            }
            12 => {
                let i = r.usize(len + 1);
                let k = r.usize(10);
                let v = *r.pick(EDGE);
                p.splice(i..i, std::iter::repeat(v).take(k));
            }
            13 if len > 8 => {
                // several bytes in a row: integers
                let i = r.usize(len - 8);
                let v = *r.pick(&[0u64, 1, u64::MAX, i64::MAX as u64, i64::MIN as u64, u32::MAX as u64, i32::MIN as u32 as u64]);
                let k = *r.pick(&[2usize, 4, 8]);
                p[i..i + k].copy_from_slice(&v.to_le_bytes()[..k]);
            }
            _ => {}
        }
    }
}

/// A packet made up from what packets are made of.
fn made_up(r: &mut Rng) -> Vec<u8> {
    let mut o = Vec::new();
    match r.below(12) {
        0 => {
            let n = r.usize(40);
            return r.bytes(n);
        }
        1 => {
            o = gen::ok(r).encode(*r.pick(&[0, 0xFE]));
        }
        2 => o = gen::err(r).encode(),
        3 => {
            let t = *r.pick(&[0u8, 1, 3, 8, 10, 11, 12, 246, 253, 254, 255, 245, 14, 17, 242]);
            o = ColSpec::new(&gen::name(r), t, r.u64() as u16).encode();
        }
        4 => wire::lenenc(&mut o, r.edgy(64)),
        5 => {
            let n = r.usize(6);
            for _ in 0..n {
                let n = r.usize(30);
                let b = r.bytes(n);
                if r.chance(1, 5) {
                    o.push(0xFB);
                } else {
                    wire::lenenc_bytes(&mut o, &b);
                }
            }
        }
        6 => {
            let t = gen::Table::random(r, 6, 1, 30);
            if let Some(x) = t.bin(r).pop() {
                o = x;
            }
        }
        7 => o = wire::prepare_ok(r.u64() as u32, r.edgy(16) as u16, r.edgy(16) as u16, 0),
        8 => o = OkSpec { status: r.u64() as u16, ..Default::default() }.old_eof(),
        9 => o = vec![0xFE],
        10 => o = huge(r),
        _ => {}
    }
    if r.chance(1, 3) {
        damage(r, &mut o);
    }
    o
}

/// Everything a healthy server sends, damaged from some packet on.
struct Damager {
    inner: Box<dyn Peer>,
    r: Rng,
    /// number of the first server packet to be damaged
    first: u64,
    /// per mille of the packets after it
    rate: u64,
    n: u64,
    /// damage the framing too
    frames: bool,
    eof: bool,
    pub log: Arc<Mutex<Vec<(u64, Vec<u8>)>>>,
    pub received: Arc<Mutex<u64>>,
}

impl Damager {
    fn pass(&mut self, io: &mut PeerIo, before: usize, before_seq: u8) {
        let items: Vec<Item> = io.q.drain(before..).collect();
        // take the framing off and put it on again
        io.seq = before_seq;
        let mut payload = Vec::new();
        for it in items {
            match it {
                Item::Bytes(b, 0) => {
                    let mut pos = 0;
                    while pos + 4 <= b.len() {
                        let n = u32::from_le_bytes([b[pos], b[pos + 1], b[pos + 2], 0]) as usize;
                        payload.extend_from_slice(&b[pos + 4..pos + 4 + n]);
                        pos += 4 + n;
                        if n < wire::MAX {
                            let p = std::mem::take(&mut payload);
                            self.emit(io, p);
                        }
                    }
                }
                other => io.item(other),
            }
        }
        *lock(&self.received) = io.queued;
    }

    fn emit(&mut self, io: &mut PeerIo, mut p: Vec<u8>) {
        let r = &mut self.r;
        let i = self.n;
        self.n += 1;
        if i < self.first || i > self.first && r.below(1000) >= self.rate {
            io.send(&p);
            return;
        }
        let mut log = lock(&self.log);
        match r.below(16) {
            0 => {
                log.push((i, b"(dropped)".to_vec()));
                return;
            }
            1 => io.send(&p),
            2 => p = made_up(r),
            3 => {
                let m = made_up(r);
                log.push((i, m.clone()));
                io.send(&m);
            }
            _ => damage(r, &mut p),
        }
        log.push((i, p.clone()));
        if self.frames && r.chance(1, 3) {
            let mut b = wire::frame(&p, &mut io.seq);
            match r.below(6) {
                0 => b[r.usize(4)] = *r.pick(EDGE),
                1 => {
                    let n = r.usize(b.len() + 1);
                    b.truncate(n);
                }
                2 => b[..3].copy_from_slice(&[0xFF; 3]),
                3 => b[..3].copy_from_slice(&[0; 3]),
                4 => {
                    let n = r.usize(30);
                    let x = r.bytes(n);
                    b.splice(0..0, x);
                }
                _ => {
                    // an empty fragment, a full one announced
                    let seq = io.seq;
                    b.extend_from_slice(&[0, 0, 0, seq]);
                    io.seq = io.seq.wrapping_add(1);
                }
            }
            io.raw(b);
        } else {
            io.send(&p);
        }
        if self.eof && r.chance(1, 4) {
            io.closed = true;
            io.item(Item::Eof);
        }
    }
}

impl Peer for Damager {
    fn start(&mut self, io: &mut PeerIo) {
        let (n, s) = (io.q.len(), io.seq);
        self.inner.start(io);
        self.pass(io, n, s);
    }
    fn packet(&mut self, io: &mut PeerIo, pkt: Vec<u8>) {
        let (n, s) = (io.q.len(), io.seq);
        self.inner.packet(io, pkt);
        self.pass(io, n, s);
    }
}

// ---------------------------------------------------------------- the client

async fn read_models<M: FromQueryResult + IntoQuery>(conn: &mut Connection, prepared: bool) -> u64 {
    let mut n = 0;
    let sql = &M::build_query();
    if prepared {
        if let Ok(mut ps) = conn.prepare_statement(sql).await {
            if let Ok(mut rs) = ps.query::<Value, M>(&[]).await {
                while let Ok(Some(m)) = rs.next().await {
                    n += 1;
                    drop(m);
                    if n > 10_000 {
                        break;
                    }
                }
            }
        }
    } else if let Ok(mut rs) = conn.query::<M>(sql).await {
        while let Ok(Some(m)) = rs.next().await {
            n += 1;
            drop(m);
            if n > 10_000 {
                break;
            }
        }
    }
    n
}

/// Uses the client on the peer and checks what it cost.
fn use_client<const S: bool>(c: &mut Case, peer: Box<dyn Peer>, plan: IoPlan, steps: &[Step], auth: Option<(&str, Plugin)>, seed: u64) -> CaseResult {
    let link = Link::new(peer, plan);
    let mut o = opts_of::<S>(once(link.clone()));
    o.allow_cleartext_password = true;
    if let Some((pass, p)) = auth {
        o.password = pass.into();
        o.auth_plugin = Some(p.option());
    } else {
        o.auth_plugin = None;
        o.password = "secret".into();
    }
    let mut r = Rng::new(&[seed]);
    if r.coin() {
        o.max_allowed_packet = None;
    }
    if r.coin() {
        o.db_name = Some("db".into());
    }
    let mut evs: Vec<Ev> = Vec::new();
    let mut connected = false;
    alloc::reset();
    let base = link.lock().io.queued;
    let ran = {
        let (evs, connected, r) = (&mut evs, &mut connected, &mut r);
        run_limit(
            async move {
                let Ok(mut conn) = Connection::connect(Arc::new(o)).await else { return };
                *connected = true;
                for st in steps {
                    match r.below(12) {
                        0 => {
                            read_models::<models::Plain>(&mut conn, r.coin()).await;
                        }
                        1 => {
                            read_models::<models::Opt>(&mut conn, r.coin()).await;
                        }
                        2 => {
                            read_models::<models::Leaf>(&mut conn, r.coin()).await;
                        }
                        3 => {
                            read_models::<models::Root>(&mut conn, r.coin()).await;
                        }
                        _ => script::perform(&mut conn, st, evs).await,
                    }
                    if r.chance(1, 4) {
                        let _ = conn.cleanup().await.map(|_| ());
                    }
                }
                let _ = conn.disconnect().await;
            },
            3_000_000,
        )
    };
    let (peak, biggest, _) = alloc::stats();
    let received = link.lock().delivered + base;
    match ran {
        Ran::Done(()) => {}
        Ran::Stuck => return violation("stuck", "the client never finishes"),
        Ran::Spins => return violation("spins", "the client polls without end"),
    }
    // what is held for the server's half of the harness is in there too
    let bound = CONSTANT + 96 * received as usize;
    ensure!(peak <= bound, "memory", "{received} bytes were received, {peak} bytes were in use, the largest request was {biggest}");
    c.count("bytes received", received);
    c.count(if connected { "logins reached" } else { "ended during login" }, 1);
    for e in &evs {
        c.count(
            match e {
                Ev::Err(Kind::Server { .. }) => "server errors",
                Ev::Err(_) => "errors",
                Ev::Row(_) | Ev::Rows(_) => "rows",
                _ => "other results",
            },
            1,
        );
    }
    Ok(())
}

fn fast_step(r: &mut Rng, tag: u64) -> Step {
    let sh = Shape { max_bytes: 60, max_cols: 5, max_rows: 4, ..Default::default() };
    let mut st = script::step(r, &sh, tag);
    // read as much as possible
    if r.chance(2, 3) {
        let how = *r.pick(&[Consume::Collect, Consume::Next(6), Consume::One, Consume::Finish, Consume::Mixed(2)]);
        match &mut st.call {
            Call::Query(c) => *c = how,
            Call::Prepared { execs, .. } => {
                for e in execs {
                    if let Exec::Query(c) = &mut e.0 {
                        *c = how;
                    }
                }
            }
            _ => {}
        }
    }
    st
}

/// Answers queries of models with columns of their names and anything in them.
struct ModelTables {
    inner: Scripted,
    r: Rng,
    binary: bool,
}

/// The columns a query selects, in order: `alias`.`column`.
fn selected(sql: &str) -> Vec<(String, String)> {
    let list = sql.strip_prefix("select ").and_then(|s| s.split(" from ").next()).unwrap_or("");
    list.split(", ")
        .filter_map(|c| {
            let (t, n) = c.trim_matches('`').split_once("`.`")?;
            Some((t.to_string(), n.to_string()))
        })
        .collect()
}

impl Handler for ModelTables {
    fn cmd(&mut self, s: &mut Session, io: &mut PeerIo, cmd: Cmd) {
        let sql = match &cmd {
            Cmd::Execute { stmt, .. } => s.stmts.get(stmt).map(|x| String::from_utf8_lossy(&x.sql).into_owned()).unwrap_or_default(),
            _ => cmd.sql(),
        };
        if !sql.starts_with("select ") {
            return self.inner.cmd(s, io, cmd);
        }
        if let Cmd::Prepare(q) = &cmd {
            self.binary = true;
            s.prepared(io, q, 0, &[]);
            return;
        }
        let binary = matches!(cmd, Cmd::Execute { .. });
        let r = &mut self.r;
        let mut cols: Vec<ColSpec> = Vec::new();
        for (t, n) in selected(&sql) {
            let ty = *r.pick(&[1u8, 2, 3, 4, 5, 8, 8, 10, 11, 12, 252, 253, 253]);
            let mut c = gen::col(r, ty);
            c.name = n.clone();
            c.org_name = n;
            c.table = t;
            cols.push(c);
        }
        if r.chance(1, 4) {
            r.shuffle(&mut cols);
        }
        if r.chance(1, 6) {
            cols.pop();
        }
        let n = r.usize(4);
        let rows: Vec<Vec<u8>> = (0..n)
            .map(|_| {
                let vals: Vec<Value> = cols.iter().map(|c| gen::cell(r, c, 40)).collect();
                if binary {
                    gen::bin_row(r, &cols, &vals)
                } else {
                    gen::text_row(r, &cols, &vals)
                }
            })
            .collect();
        s.result(io, &cols, &rows, &OkSpec { status: 2, ..Default::default() });
    }
}

fn plan(r: &mut Rng) -> IoPlan {
    if r.chance(1, 4) {
        IoPlan::random(r)
    } else {
        IoPlan::default()
    }
}

fn commands(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let n = r.range(1, 5);
    let steps: Vec<Step> = (1..=n).map(|t| fast_step(r, t)).collect();
    let mut srv = Server::new(ModelTables { inner: Scripted::new(&steps), r: r.fork(), binary: false });
    if r.chance(1, 3) {
        srv.greeting.caps &= !caps::DEPRECATE_EOF;
    }
    // 0: greeting, 1: final OK, then (if the limit is asked) 4 or 5 packets
    let first = match r.below(6) {
        0 => r.below(2),
        1 => r.range(2, 7),
        _ => r.range(2, 40),
    };
    let log: Arc<Mutex<Vec<(u64, Vec<u8>)>>> = Default::default();
    let d = Damager {
        inner: Box::new(srv),
        r: r.fork(),
        first,
        rate: *r.pick(&[0u64, 0, 100, 500, 1000]),
        n: 0,
        frames: r.chance(1, 5),
        eof: r.chance(1, 3),
        log: log.clone(),
        received: Default::default(),
    };
    let plan = plan(r);
    let seed = r.u64();
    c.note(format!("damage from packet {first}; steps {}", brief(&steps)));
    let res = use_client::<true>(c, Box::new(d), plan, &steps, Some(("", Plugin::Native)), seed);
    let log = lock(&log);
    c.note(format!("damaged {}", brief(&*log)));
    c.count("packets damaged", log.len() as u64);
    if !log.is_empty() {
        c.feed(&*log);
    }
    res
}

/// Damaged logins.
fn logins(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let plugin = *r.pick(&Plugin::ALL);
    let key = key_bits(1024).clone();
    let pem = random_pem(r, &key);
    let n1 = nonce(r);
    let pass = password(r);
    let pass: String = pass.chars().take(20).collect();
    let secure = r.coin();
    let cfg = AuthCfg {
        user: "user".into(),
        pass: pass.clone(),
        plugin,
        full: r.chance(2, 3),
        force_switch: r.chance(1, 3),
        nonce: n1.clone(),
        switch_nonce: nonce(r),
        switch_nul: r.coin(),
        secure,
        key,
        pem,
        deny: Deny::No,
        error: gen::err(r),
        ok: gen::ok(r),
    };
    let (auth, _) = AuthServer::new(cfg);
    let greeting = Greeting { nonce: n1, plugin: r.pick(&Plugin::ALL).name().into(), ..Default::default() };
    let srv = Server::new(|s: &mut Session, io: &mut PeerIo, _: Cmd| s.ok(io, &OkSpec::default())).greeting(greeting).login(auth);
    let first = r.below(5);
    let log: Arc<Mutex<Vec<(u64, Vec<u8>)>>> = Default::default();
    let d = Damager {
        inner: Box::new(srv),
        r: r.fork(),
        first,
        rate: *r.pick(&[0u64, 300, 1000]),
        n: 0,
        frames: r.chance(1, 5),
        eof: r.chance(1, 3),
        log: log.clone(),
        received: Default::default(),
    };
    let plan = plan(r);
    let seed = r.u64();
    let forced = *r.pick(&Plugin::ALL);
    let auth = if r.coin() { Some((pass.as_str(), forced)) } else { None };
    c.note(format!("damage from packet {first}"));
    let res = if secure { use_client::<true>(c, Box::new(d), plan, &[], auth, seed) } else { use_client::<false>(c, Box::new(d), plan, &[], auth, seed) };
    let log = lock(&log);
    c.note(format!("damaged {}", brief(&*log)));
    c.count("login packets damaged", log.len() as u64);
    if !log.is_empty() {
        c.feed(&*log);
    }
    res
}

/// Nothing but made-up packets after some point.
struct Babbler {
    r: Rng,
    healthy: bool,
    left: u64,
    log: Arc<Mutex<Vec<Vec<u8>>>>,
    commands: u64,
}

impl Peer for Babbler {
    fn start(&mut self, io: &mut PeerIo) {
        if self.healthy {
            io.send(&Greeting::default().encode());
        } else {
            let mut g = Greeting { nonce: { let n = self.r.range(8, 60) as usize; self.r.bytes(n) }, caps: self.r.u64() as u32 | 0x8200, ..Default::default() }.encode();
            if self.r.coin() {
                damage(&mut self.r, &mut g);
            }
            lock(&self.log).push(g.clone());
            io.send(&g);
        }
    }
    fn packet(&mut self, io: &mut PeerIo, _pkt: Vec<u8>) {
        self.commands += 1;
        if self.commands == 1 && self.healthy {
            io.login = false;
            io.send(&OkSpec::default().encode(0));
            return;
        }
        let n = match self.r.below(4) {
            0 => 1,
            1 => 2,
            _ => self.r.range(1, 12),
        };
        // most responses start with one of these
        if self.r.coin() {
            let p = match self.r.below(4) {
                0 | 1 => vec![self.r.below(5) as u8],
                2 => wire::prepare_ok(self.r.u64() as u32, self.r.below(4) as u16, self.r.below(4) as u16, 0),
                _ => gen::ok(&mut self.r).encode(0),
            };
            lock(&self.log).push(p.clone());
            io.send(&p);
            let cols = self.r.below(4);
            for _ in 0..cols {
                let t = *self.r.pick(&[0u8, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 245, 246, 252, 253, 254]);
                let p = ColSpec::new("a", t, 0).encode();
                lock(&self.log).push(p.clone());
                io.send(&p);
            }
        }
        for _ in 0..n {
            let p = made_up(&mut self.r);
            lock(&self.log).push(p.clone());
            io.send(&p);
        }
        if self.left == 0 {
            io.closed = true;
            io.item(Item::Eof);
        }
        self.left = self.left.saturating_sub(1);
    }
}

fn babble(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let log: Arc<Mutex<Vec<Vec<u8>>>> = Default::default();
    let b = Babbler { r: r.fork(), healthy: r.chance(4, 5), left: r.below(4), log: log.clone(), commands: 0 };
    let n = r.range(1, 5);
    let steps: Vec<Step> = (1..=n).map(|t| fast_step(r, t)).collect();
    let plan = plan(r);
    let seed = r.u64();
    let res = use_client::<false>(c, Box::new(b), plan, &steps, None, seed);
    let log = lock(&log);
    c.note(format!("said {}", brief(&*log)));
    c.count("packets made up", log.len() as u64);
    c.feed(&*log);
    res
}

/// Announced sizes without the data.
struct Boaster {
    stage: u64,
    what: Vec<u8>,
    raw: bool,
    commands: u64,
    then: Item,
}

impl Boaster {
    fn boast(&mut self, io: &mut PeerIo) {
        if self.raw {
            io.raw(self.what.clone());
        } else {
            io.send(&self.what.clone());
        }
        io.closed = true;
        let then = std::mem::replace(&mut self.then, Item::Eof);
        io.item(then);
    }
}

impl Peer for Boaster {
    fn start(&mut self, io: &mut PeerIo) {
        if self.stage == 0 {
            self.boast(io);
        } else {
            io.send(&Greeting::default().encode());
        }
    }
    fn packet(&mut self, io: &mut PeerIo, pkt: Vec<u8>) {
        self.commands += 1;
        if self.commands == self.stage {
            return self.boast(io);
        }
        if self.commands == 1 {
            io.login = false;
            return io.send(&OkSpec::default().encode(0));
        }
        if pkt.first() == Some(&0x16) {
            io.send(&wire::prepare_ok(1, 0, 0, 0));
        } else {
            io.send(&OkSpec::default().encode(0));
        }
    }
}

fn boasts(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let raw = r.chance(1, 3);
    let mut what = Vec::new();
    if raw {
        // a header of a fragment that never comes, or a run of full fragments' headers
        what.extend_from_slice(&[0xFF, 0xFF, 0xFF, r.u8() % 4]);
    } else {
        what.extend(match r.below(5) {
            // columns, parameters
            0 | 1 => huge(r),
            2 => wire::prepare_ok(1, r.edgy(16) as u16, r.edgy(16) as u16, 0),
            3 => {
                let mut p = vec![0xFE];
                p.extend(b"caching_sha2_password\0");
                p.extend(huge(r));
                p
            }
            _ => {
                let mut p = vec![*r.pick(&[0u8, 0xFE, 1])];
                p.extend(huge(r));
                p.extend(huge(r));
                p
            }
        });
        let n = r.usize(10);
        what.extend(r.bytes(n));
    }
    let then = match r.below(3) {
        0 => Item::Eof,
        1 => Item::Stall,
        _ => Item::Err(std::io::ErrorKind::ConnectionReset),
    };
    let stage = r.below(5);
    let n = r.range(1, 3);
    let steps: Vec<Step> = (1..=n).map(|t| fast_step(r, t)).collect();
    let seed = r.u64();
    c.note(format!("at stage {stage}: {} then {then:?}", brief(&what)));
    c.feed(&(stage, &what));
    let b = Boaster { stage, what, raw, commands: 0, then };
    c.count("sizes announced", 1);
    use_client::<true>(c, Box::new(b), IoPlan::default(), &steps, Some(("x", *Rng::new(&[seed]).pick(&Plugin::ALL))), seed)
}

pub fn main() {
    Check::new("C15", "one case = one session with a damaged or made-up server; distinct by the damaged packets")
        .assume("in bounded time: at most 3 million polls and a minute of processor time; memory: 64 MiB and 96 bytes for each byte received, harness included")
        .scale(4)
        .group("commands", 40_000, 3_000_000, commands)
        .group("logins", 10_000, 500_000, logins)
        .group("babble", 20_000, 1_500_000, babble)
        .group("boasts", 5000, 100_000, boasts)
        .require("packets damaged", 20_000)
        .require("login packets damaged", 5000)
        .require("packets made up", 50_000)
        .require("sizes announced", 3000)
        .require("errors", 10_000)
        .require("rows", 5000)
        .main()
}
