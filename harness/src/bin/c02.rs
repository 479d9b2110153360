//! C02: received data does not depend on how the transport fragments it.
use {
    std::time::Duration,
    vharness::{auth::*, kit::*, script::*, *},
};

fn play(steps: &[Step], dep: bool, plan: IoPlan) -> Result<(Vec<String>, Vec<Vec<Ev>>, Link), Fail> {
    let scr = Scripted::new(steps);
    let mut srv = Server::new(scr);
    if !dep {
        srv.greeting.caps &= !caps::DEPRECATE_EOF;
    }
    let (link, _) = srv.link(plan);
    let mut all = Vec::new();
    drive("session", async {
        let mut conn = must_connect(&link).await?;
        for st in steps {
            let mut got = Vec::new();
            perform(&mut conn, st, &mut got).await;
            all.push(got);
        }
        Ok(())
    })?;
    Ok((all.iter().map(|e| format!("{e:?}")).collect(), all, link))
}

fn sessions(c: &mut Case) -> CaseResult {
    let dep = c.rng.chance(2, 3);
    let sh = Shape { max_bytes: 2000, ..Default::default() };
    let n = c.rng.range(1, 6);
    let steps: Vec<Step> = (1..=n).map(|t| step(&mut c.rng, &sh, t)).collect();
    for st in &steps {
        c.note(format!("{} {}", st.tag, brief(&st.call)));
        c.note(format!("    replies {}", brief(&st.replies)));
    }
    let (want, evs, link) = play(&steps, dep, IoPlan::default())?;
    let total = link.lock().delivered;
    for (st, got) in steps.iter().zip(&evs) {
        if !matches!(st.call, Call::Cleanup) {
            if let Err(e) = compare(&expect(st, dep), got) {
                return violation("wrong data", format!("unfragmented, step {}: {e}", st.tag));
            }
        }
    }
    for k in 0..4 {
        let mut plan = IoPlan::random(&mut c.rng);
        plan.rchunk = match k {
            0 => Chunk::One,
            1 => Chunk::Upto(3),
            2 => Chunk::Upto(50),
            _ => Chunk::All,
        };
        // pauses, each shorter than the timeout
        let k = c.rng.below(6);
        for _ in 0..k {
            let at = c.rng.below(total.max(1));
            // together less than the timeout: they may all fall into one packet
            let d = Duration::from_millis(c.rng.below(9000 / k));
            plan.faults.push((Pos::Read(at), Fault::Delay(d)));
        }
        c.note(format!("plan {plan:?}"));
        let (got, _, link) = play(&steps, dep, plan)?;
        for (i, (w, g)) in want.iter().zip(&got).enumerate() {
            ensure!(
                w == g,
                "depends on fragmentation",
                "step {} ({}) unfragmented: {}; fragmented: {}",
                i + 1,
                brief(&steps[i].call),
                brief(w),
                brief(g)
            );
        }
        let g = link.lock();
        c.count("read calls", g.read_calls);
        c.count("bytes delivered", g.delivered);
        c.count("delays", g.fired.len() as u64);
        c.count("fragmented sessions", 1);
    }
    c.feed(&want);
    c.sample(format!("{n} steps, {total} bytes from the server"));
    Ok(())
}

/// Logins over every path, one byte at a time.
fn logins(c: &mut Case) -> CaseResult {
    let rng = &mut c.rng;
    let plugin = *rng.pick(&Plugin::ALL);
    let pass = password(rng);
    let key = key_bits(1280).clone();
    let pem = random_pem(rng, &key);
    let n = nonce(rng);
    let cfg = AuthCfg {
        user: "user".into(),
        pass: pass.clone(),
        plugin,
        full: rng.coin(),
        force_switch: rng.chance(1, 3),
        nonce: n.clone(),
        switch_nonce: nonce(rng),
        switch_nul: true,
        secure: false,
        key,
        pem,
        deny: if rng.chance(1, 4) { Deny::AtEnd } else { Deny::No },
        error: gen::err(rng),
        ok: OkSpec { status: 2, ..gen::ok(rng) },
    };
    let conn_id = rng.u32();
    let greeting = Greeting { conn_id, nonce: n, plugin: rng.pick(&Plugin::ALL).name().into(), ..Default::default() };
    let once_with = |plan: IoPlan| -> Result<String, Fail> {
        let (auth, _) = AuthServer::new(cfg.clone());
        let srv = Server::new(|s: &mut Session, io: &mut PeerIo, _: Cmd| s.ok(io, &OkSpec::default())).greeting(greeting.clone()).login(auth);
        let (link, _) = srv.link(plan);
        let mut o = opts(once(link.clone()));
        o.password = pass.clone();
        o.auth_plugin = None;
        o.max_allowed_packet = None;
        o.allow_cleartext_password = true;
        drive("login", async {
            Ok(match mysql_connector::Connection::connect(std::sync::Arc::new(o)).await {
                Ok(conn) => format!(
                    "ok {} {:?} {:?} {}",
                    conn.data().id(),
                    conn.data().version(),
                    conn.data().capabilities(),
                    conn.data().max_allowed_packet()
                ),
                Err(e) => format!("{:?}", kind(&e)),
            })
        })
    };
    let want = once_with(IoPlan::default())?;
    ensure!(want.starts_with("ok") == (cfg.deny == Deny::No), "login", "deny {:?}: {want}", cfg.deny);
    for ch in [Chunk::One, Chunk::Upto(4), Chunk::Upto(200)] {
        let plan = IoPlan { rchunk: ch, wchunk: ch, pend: 100, seed: c.rng.u64(), ..Default::default() };
        let got = once_with(plan)?;
        ensure!(got == want, "depends on fragmentation", "login unfragmented: {want}; {ch:?}: {got}");
        c.count("fragmented logins", 1);
    }
    c.feed(&(plugin, pass, want));
    Ok(())
}

/// Rows around and beyond 16 MiB.
fn large(c: &mut Case) -> CaseResult {
    let m = wire::MAX;
    let rng = &mut c.rng;
    let dep = rng.coin();
    let binary = rng.coin();
    // payload sizes at the seams
    let targets = [m - 1, m, m + 1, m + 5, 2 * m - 1, 2 * m, 2 * m + 1, m + 4, 0x1000000 + 9, 0x1000000 + 8, 3 * m, m + m / 2];
    let target = targets[(c.idx as usize) % targets.len()];
    let rng = &mut c.rng;
    // bytes of header for a single blob cell
    let pre = if binary { 2 } else { 0 };
    let head = |n: usize| if n < 0x1000000 { 4 } else { 9 };
    let len = if target - pre - 4 < 0x1000000 { target - pre - 4 } else { target - pre - 9 };
    let exact = pre + head(len) + len == target;
    let big = rng.filler(len);
    let small = rng.bytes(10);
    let col = ColSpec::new("b", typ::LONGBLOB, 0);
    let cell = |b: &[u8]| {
        let mut o = Vec::new();
        wire::lenenc_bytes(&mut o, b);
        o
    };
    let row = |b: &[u8]| if binary { wire::bin_row(&[Some(cell(b))]) } else { wire::text_row(&[Some(b.to_vec())]) };
    let rows = vec![row(&small), row(&big), row(&small)];
    let payload = rows[1].len();
    let vals = [small.clone(), big, small];
    let end = gen::end(rng);
    let (col2, end2) = (col.clone(), end.clone());
    let mut srv = Server::new(move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| match cmd {
        Cmd::Query(q) if q == b"ping" => s.ok(io, &OkSpec { affected: 5, ..Default::default() }),
        Cmd::Prepare(q) => {
            s.prepared(io, &q, 0, &[]);
        }
        Cmd::Query(_) | Cmd::Execute { .. } => s.result(io, &[col2.clone()], &rows, &end2),
        _ => {}
    });
    if !dep {
        srv.greeting.caps &= !caps::DEPRECATE_EOF;
    }
    let rchunk = *rng.pick(&[Chunk::All, Chunk::Upto(1 << 20), Chunk::Upto(70_000), Chunk::Upto(16 << 20)]);
    let (link, _) = srv.link(IoPlan { rchunk, pend: 20, seed: rng.u64(), ..Default::default() });
    let delays = rng.coin();
    let skip = rng.chance(1, 4);
    c.note(format!("payload {payload} (target {target}, exact {exact}) binary {binary} deprecate eof {dep} chunk {rchunk:?} delays {delays} skip {skip}"));
    let mut offs = Vec::new();
    for _ in 0..4 {
        offs.push((c.rng.below(3), c.rng.below(8)));
    }
    drive("large rows", async {
        let mut conn = must_connect(&link).await?;
        if delays {
            // pauses inside and next to the fragments' headers
            let mut g = link.lock();
            let base = g.delivered;
            for (frag, off) in &offs {
                g.plan.faults.push((Pos::Read(base + 90 + frag * (m as u64 + 4) + off), Fault::Delay(Duration::from_secs(2))));
            }
        }
        macro_rules! body {
            ($rs:expr) => {{
                let mut rs = must($rs, "query", "query with a large row")?;
                if !skip {
                    for (i, v) in vals.iter().enumerate() {
                        match must(rs.next().await, "row", &format!("row {i}"))? {
                            Some(r) => ensure!(
                                r.len() == 1 && matches!(&r[0], mysql_connector::types::Value::Bytes(b) if b == v),
                                "wrong data",
                                "row {i} is not the one sent ({} bytes): {}",
                                v.len(),
                                brief(r.iter().map(|x| match x { mysql_connector::types::Value::Bytes(b) => b.len(), _ => usize::MAX }).collect::<Vec<_>>())
                            ),
                            None => return violation("row missing", format!("row {i} of {} bytes is missing", v.len())),
                        }
                        c.count("rows compared", 1);
                    }
                    ensure!(must(rs.next().await, "end", "end")?.is_none(), "extra row", "a row too many");
                    let s = must(rs.finish().await, "finish", "finish")?;
                    let s = summary!(s);
                    ensure!(s == Summary::of_end(&end, dep), "summary", "summary {s:?}");
                }
            }};
        }
        if binary {
            let mut st = must(conn.prepare_statement("x").await, "prepare", "prepare")?;
            body!(st.query::<mysql_connector::types::Value, Row>(&[]).await)
        } else {
            body!(conn.query::<Row>("x").await)
        }
        let ok = must(conn.execute_query("ping").await, "ping", "command after a large row")?;
        ensure!(ok.affected_rows() == 5, "ping", "wrong answer after a large row");
        Ok(())
    })?;
    c.count("rows of 16 MiB or more", (payload >= m) as u64);
    c.count("rows of an exact multiple", (payload % m == 0) as u64);
    c.count("large rows starting with 0xFE", (!binary && len >= 0x1000000) as u64);
    c.feed(&(payload, binary, dep, skip, format!("{rchunk:?}")));
    c.sample(format!("a row of {payload} bytes, {} reads", link.lock().read_calls));
    Ok(())
}

/// Rows whose packets fill buffers of common sizes exactly.
fn round(c: &mut Case) -> CaseResult {
    let dep = c.rng.coin();
    let binary = c.rng.coin();
    let k = c.rng.range(1, 6) as usize;
    let mut vals = Vec::new();
    for _ in 0..k {
        let packet = gen::round_size(&mut c.rng, 6 << 20);
        let pre = if binary { 2 } else { 0 };
        // bytes of header for a single blob cell
        let head = match packet {
            0..=253 => 1,
            254..=65_540 => 3,
            _ => 4,
        };
        let n = packet.saturating_sub(pre + head);
        let mut v = c.rng.filler(n);
        if let Some(x) = v.last_mut() {
            *x = 0xA5;
        }
        vals.push(v);
    }
    let col = ColSpec::new("b", typ::LONGBLOB, 0);
    let cell = |b: &[u8]| {
        let mut o = Vec::new();
        wire::lenenc_bytes(&mut o, b);
        o
    };
    let rows: Vec<Vec<u8>> =
        vals.iter().map(|b| if binary { wire::bin_row(&[Some(cell(b))]) } else { wire::text_row(&[Some(b.clone())]) }).collect();
    let sizes: Vec<usize> = rows.iter().map(Vec::len).collect();
    let end = gen::end(&mut c.rng);
    let mut srv = Server::new(move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| match cmd {
        Cmd::Prepare(q) => {
            s.prepared(io, &q, 0, &[]);
        }
        Cmd::Query(_) | Cmd::Execute { .. } => s.result(io, &[col.clone()], &rows, &end),
        _ => {}
    });
    if !dep {
        srv.greeting.caps &= !caps::DEPRECATE_EOF;
    }
    let rchunk = *c.rng.pick(&[Chunk::All, Chunk::Upto(1 << 20), Chunk::Upto(65_536), Chunk::Upto(16_384), Chunk::Upto(70_001)]);
    let (link, _) = srv.link(IoPlan { rchunk, pend: 20, seed: c.rng.u64(), ..Default::default() });
    c.note(format!("packets {sizes:?} binary {binary} deprecate eof {dep} chunk {rchunk:?}"));
    drive("round rows", async {
        let mut conn = must_connect(&link).await?;
        macro_rules! body {
            ($rs:expr) => {{
                let mut rs = must($rs, "query", "query")?;
                for (i, v) in vals.iter().enumerate() {
                    let r = must(rs.next().await, "row", &format!("row {i}, a packet of {} bytes", sizes[i]))?;
                    ensure!(
                        r.as_ref().is_some_and(|r| r.len() == 1 && matches!(&r[0], mysql_connector::types::Value::Bytes(b) if b == v)),
                        "wrong data",
                        "row {i}, a packet of {} bytes, is not the one sent",
                        sizes[i]
                    );
                    c.count("rows compared", 1);
                    c.count("packets of a multiple of 4096 bytes", (sizes[i] % 4096 == 0) as u64);
                }
                ensure!(must(rs.next().await, "end", "end")?.is_none(), "extra row", "a row too many");
            }};
        }
        if binary {
            let mut st = must(conn.prepare_statement("x").await, "prepare", "prepare")?;
            body!(st.query::<mysql_connector::types::Value, Row>(&[]).await)
        } else {
            body!(conn.query::<Row>("x").await)
        }
        Ok(())
    })?;
    c.feed(&(sizes, binary));
    Ok(())
}

pub fn main() {
    Check::new("C02", "one case = one server script played under several fragmentations; distinct by the data received")
        .assume("the reference is the same script delivered without fragmentation, itself compared with the script")
        .scale(4)
        .group("sessions", 1200, 40_000, sessions)
        .group("logins", 400, 10_000, logins)
        .group("round", 120, 4000, round)
        .group_on(6, "large", 36, 300, large)
        .require("fragmented sessions", 1000)
        .require("rows of 16 MiB or more", 10)
        .require("rows of an exact multiple", 4)
        .require("packets of a multiple of 4096 bytes", 100)
        .require("large rows starting with 0xFE", 2)
        .main()
}
