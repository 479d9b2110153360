//! C29: any conforming stream can carry a connection.
use {
    mysql_connector::{types::AuthPlugin, Connection, ConnectionOptions, Error, Stream, StreamRequirements, TcpStreamOptions},
    std::{io, net::{SocketAddr, TcpListener}, os::fd::AsRawFd, sync::Arc, time::Duration},
    tokio::{
        io::{BufReader, BufStream, BufWriter},
        net::TcpStream,
    },
    vharness::{auth::*, carrier::*, kit::*, script::*, *},
};

/// One session: how it logs in and what it does.
#[derive(Clone)]
struct Story {
    steps: Vec<Step>,
    dep: bool,
    auth: Option<AuthCfg>,
    pass: String,
}

fn story(c: &mut Case, max_steps: u64, sh: Shape) -> Story {
    let n = c.rng.range(1, max_steps);
    let steps: Vec<Step> = (1..=n).map(|t| step(&mut c.rng, &sh, t)).collect();
    let dep = c.rng.chance(2, 3);
    let auth = if c.rng.coin() {
        let plugin = *c.rng.pick(&Plugin::ALL);
        let pass = password(&mut c.rng);
        let need = (pass.len() + 43) * 8;
        let key = KEYS.iter().find(|k| k.bits >= need).unwrap_or(&KEYS[0]).clone();
        let pem = random_pem(&mut c.rng, &key);
        Some(AuthCfg {
            user: "user".into(),
            pass,
            plugin,
            full: c.rng.chance(3, 4),
            force_switch: c.rng.chance(1, 3),
            nonce: nonce(&mut c.rng),
            switch_nonce: nonce(&mut c.rng),
            switch_nul: true,
            secure: false,
            key,
            pem,
            deny: Deny::No,
            error: ErrSpec { code: 1045, state: Some(*b"28000"), message: "denied".into() },
            ok: OkSpec { status: 2, ..Default::default() },
        })
    } else {
        None
    };
    let pass = auth.as_ref().map(|a| a.pass.clone()).unwrap_or_default();
    c.note(format!("deprecate eof {dep}, login {:?}", auth.as_ref().map(|a| (a.plugin, a.full, a.force_switch))));
    for s in &steps {
        c.note(format!("{} {}", s.tag, brief(&s.call)));
    }
    let shape: Vec<String> = steps.iter().map(|s| format!("{:?}", s.call)).collect();
    c.feed(&shape);
    Story { steps, dep, auth, pass }
}

struct Behind {
    link: Link,
    session: Arc<std::sync::Mutex<Session>>,
    seen: Arc<std::sync::Mutex<Vec<String>>>,
}

impl Story {
    fn server(&self, plan: IoPlan, secure: bool) -> Behind {
        let scr = Scripted::new(&self.steps);
        let seen = scr.seen.clone();
        let mut srv = Server::new(scr);
        if !self.dep {
            srv.greeting.caps &= !caps::DEPRECATE_EOF;
        }
        if let Some(a) = &self.auth {
            srv.greeting.nonce = a.nonce.clone();
            srv.greeting.plugin = a.plugin.name().into();
            let mut a = a.clone();
            a.secure = secure;
            srv = srv.login(AuthServer::new(a).0);
        }
        let (link, session) = srv.link(plan);
        Behind { link, session, seen }
    }

    fn options<T: Stream>(&self, connection: T::Options, patience: Duration) -> ConnectionOptions<T> {
        ConnectionOptions {
            user: "user".into(),
            password: self.pass.clone(),
            db_name: None,
            connection,
            max_allowed_packet: Some(64 << 20),
            timeout: patience,
            auth_plugin: Some(self.auth.as_ref().map_or(AuthPlugin::Native, |a| a.plugin.option())),
            allow_cleartext_password: true,
            ..Default::default()
        }
    }

    /// Everything seen at the API: one list for connecting, one per step, one for disconnecting.
    async fn play<T: Stream>(&self, o: ConnectionOptions<T>) -> Vec<Vec<Ev>> {
        self.play_and(o, || ()).await
    }

    /// `connected` is called after the login.
    async fn play_and<T: Stream>(&self, o: ConnectionOptions<T>, connected: impl FnOnce()) -> Vec<Vec<Ev>> {
        let mut all = Vec::new();
        let mut conn = match Connection::connect(Arc::new(o)).await {
            Ok(c) => c,
            Err(e) => return vec![vec![Ev::Err(kind(&e))]],
        };
        all.push(vec![Ev::Started]);
        connected();
        for st in &self.steps {
            let mut got = Vec::new();
            perform(&mut conn, st, &mut got).await;
            all.push(got);
        }
        all.push(vec![match conn.disconnect().await {
            Ok(()) => Ev::End,
            Err(e) => Ev::Err(kind(&e)),
        }]);
        all
    }

    fn check(&self, how: &str, got: &[Vec<Ev>], b: &Behind) -> CaseResult {
        ensure!(matches!(got[0][0], Ev::Started), "login", "{how}: the login failed: {}", brief(&got[0]));
        for (st, g) in self.steps.iter().zip(&got[1..]) {
            if !matches!(st.call, Call::Cleanup) {
                if let Err(e) = compare(&expect(st, self.dep), g) {
                    return violation("wrong response", format!("{how}: step {} ({}): {e}", st.tag, brief(&st.call)));
                }
            } else if let Some(Ev::Err(k @ Kind::Io(_))) = g.first() {
                return violation("wrong response", format!("{how}: cleanup: {k:?}"));
            }
        }
        let last = &got[got.len() - 1][0];
        ensure!(matches!(last, Ev::End), "disconnect", "{how}: disconnecting failed: {}", brief(last));
        frames_ok(&b.link)?;
        let s = lock(&b.session);
        ensure!(s.protocol_errors.is_empty(), "protocol", "{how}: {:?}", s.protocol_errors);
        ensure!(s.quits == 1, "quit", "{how}: the server got {} quit commands", s.quits);
        Ok(())
    }
}

/// Paused clock.
const PATIENCE: Duration = Duration::from_secs(3600 * 24);

fn plan(rng: &mut Rng) -> IoPlan {
    let mut p = IoPlan::random(rng);
    p.need_flush = rng.chance(3, 4);
    p.pend = *rng.pick(&[0, 100, 500, 900]);
    p
}

const KINDS: [&str; 8] = ["plain", "buffered", "buffered writer", "buffered reader", "filling", "late", "pipe", "late pipe"];

fn carried<const S: bool>(c: &mut Case, st: &Story) -> CaseResult {
    let what = c.rng.usize(KINDS.len());
    let how = KINDS[what];
    let p = match what {
        6 | 7 => IoPlan::default(),
        _ => plan(&mut c.rng),
    };
    c.note(format!("{how} secure {S}: {p:?}"));
    c.feed(&(what, S, p.need_flush, p.pend, format!("{:?} {:?}", p.rchunk, p.wchunk)));
    c.count(how, 1);
    c.count("transports that need a flush", p.need_flush as u64);
    let b = st.server(p, S);
    let (cap_r, cap_w) = (1 + c.rng.usize(300), 1 + c.rng.usize(300));
    let pipe = *c.rng.pick(&[1usize, 2, 5, 64, 4096]);
    let permille = *c.rng.pick(&[30u64, 300, 900]);
    let rng = Rng::new(&[c.rng.u64()]);
    let link = b.link.clone();
    let make = move || -> io::Result<Box<dyn StreamRequirements>> {
        let m = link.stream::<S>();
        let seed = rng.clone();
        Ok(match what {
            0 => Box::new(m),
            1 => Box::new(BufStream::with_capacity(cap_r, cap_w, m)),
            2 => Box::new(BufWriter::with_capacity(cap_w, m)),
            3 => Box::new(BufReader::with_capacity(cap_r, m)),
            4 => Box::new(Filler(m, seed)),
            5 => Box::new(Later::new(m, seed, permille)),
            _ => {
                let (a, z) = tokio::io::duplex(pipe);
                tokio::spawn(serve(z, link.clone(), seed.clone()));
                match what {
                    6 => Box::new(a),
                    _ => Box::new(Later::new(Filler(a, seed.clone()), seed, permille.min(300))),
                }
            }
        })
    };
    let got = drive("session", async {
        let got = st.play(st.options::<Carrier<S>>(CarrierOptions::new(make), PATIENCE)).await;
        // let a server task take the farewell
        tokio::time::sleep(Duration::from_secs(1)).await;
        Ok(got)
    })?;
    st.check(how, &got, &b)?;
    let g = b.link.lock();
    c.count("calls answered with not ready", g.pendings);
    c.count("read calls", g.read_calls);
    c.count("write calls", g.write_calls);
    c.count("flush calls", g.flush_calls);
    c.count("sessions", 1);
    Ok(())
}

fn shape(c: &mut Case) -> Shape {
    Shape { max_bytes: *c.rng.pick(&[20usize, 300, 300, 3000]), max_rows: 4, ..Default::default() }
}

fn transports(c: &mut Case) -> CaseResult {
    let sh = shape(c);
    let st = story(c, 5, sh);
    if c.rng.chance(1, 4) {
        carried::<true>(c, &st)
    } else {
        carried::<false>(c, &st)
    }
}

/// Every kind of stream at every chunk size and readiness, on one story each.
fn sizes(c: &mut Case) -> CaseResult {
    let st = story(c, 3, Shape { max_bytes: 70_000, max_rows: 3, ..Default::default() });
    for _ in 0..3 {
        carried::<false>(c, &st)?;
    }
    Ok(())
}

/// Commands and rows of several fragments over transports that keep everything until a flush.
fn big(c: &mut Case) -> CaseResult {
    const MAX: usize = 0xff_ffff;
    let len = (*c.rng.pick(&[MAX, MAX, MAX - 1, MAX + 1, 2 * MAX, 2 * MAX - 4])) - 1;
    let back = *c.rng.pick(&[10usize, 70_000, MAX]);
    let handler = move |s: &mut Session, io: &mut PeerIo, cmd: Cmd| {
        if let Cmd::Query(q) = cmd {
            let col = ColSpec::new("x", typ::VARSTRING, 0);
            let row = wire::text_row(&[Some(vec![b'y'; back]), Some(q.len().to_string().into_bytes())]);
            s.result(io, &[col, ColSpec::new("n", typ::LONGLONG, 0)], &[row], &OkSpec { status: 2, ..Default::default() });
        }
    };
    let mut p = plan(&mut c.rng);
    p.need_flush = true;
    p.pend = p.pend.min(100);
    p.transcript = 0;
    let sizes = [Chunk::All, Chunk::Upto(5_000_000), Chunk::Upto(100_000)];
    p.rchunk = *c.rng.pick(&sizes);
    p.wchunk = *c.rng.pick(&sizes);
    let fault = if c.rng.chance(1, 3) {
        // at a seam of the fragments
        let at = 4 + MAX as u64 + c.rng.below(6);
        let k = *c.rng.pick(&ERRORS);
        Some((at, k))
    } else {
        None
    };
    c.note(format!("{len} bytes there, {back} back, fault {fault:?}, {p:?}"));
    c.feed(&(len, back, format!("{:?}", fault)));
    let (link, _) = Server::new(handler).link(p);
    let sql = "x".repeat(len);
    drive("session", async {
        let mut conn = must_connect(&link).await?;
        if let Some((at, k)) = fault {
            let mut g = link.lock();
            let at = g.written + at;
            // payload and headers
            if at < g.written + (len + 1 + 4 * ((len + 1) / MAX + 1)) as u64 {
                g.plan.faults.push((Pos::Write(at), Fault::Err(k)));
            }
        }
        let faulty = !link.lock().plan.faults.is_empty();
        let r = async {
            let mut rs = conn.query::<Row>(&sql).await?;
            rs.collect().await
        }
        .await;
        match r {
            Ok(rows) => {
                ensure!(!faulty, "swallowed", "the error {fault:?} was reported by nothing");
                let want = vec![mysql_connector::types::Value::Bytes(vec![b'y'; back]), mysql_connector::types::Value::Long(len as i64)];
                ensure!(rows.len() == 1 && same_row(&rows[0], &want), "wrong response", "the answer to a command of {len} bytes: {}", brief(&rows));
                must(conn.disconnect().await, "disconnect", "disconnect")?;
                c.count("big commands answered", 1);
            }
            Err(e) => match fault {
                Some((_, k)) if faulty => {
                    ensure!(kind(&e) == Kind::Io(k), "wrong error", "{k:?} was reported as {}", brief(&e));
                    c.count("write errors reported", 1);
                }
                _ => return violation("wrong response", format!("a command of {len} bytes failed: {}", brief(&e))),
            },
        }
        Ok(())
    })?;
    if fault.is_none() {
        frames_ok(&link)?;
    }
    Ok(())
}

const ERRORS: [io::ErrorKind; 12] = [
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidData,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::NetworkDown,
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
];

/// The first thing that goes differently from the undisturbed session is the error with its kind.
fn faults(c: &mut Case) -> CaseResult {
    let sh = Shape { max_bytes: *c.rng.pick(&[20usize, 300]), max_rows: 4, bad_rows: 0, bad_defs: 0, ..Default::default() };
    let st = story(c, 4, sh);
    let mut p = IoPlan::random(&mut c.rng);
    p.need_flush = c.rng.coin();
    p.pend = 0;
    let b = st.server(p.clone(), false);
    let link = b.link.clone();
    let want = drive("session", async { Ok(st.play(st.options::<MemStream<false>>(once(link), PATIENCE)).await) })?;
    st.check("undisturbed", &want, &b)?;
    let (written, delivered, flushes) = {
        let g = b.link.lock();
        (g.written, g.delivered, g.flush_calls)
    };
    for _ in 0..6 {
        let k = *c.rng.pick(&ERRORS);
        let pos = match c.rng.below(5) {
            0 | 1 => Pos::Read(c.rng.below(delivered)),
            2 | 3 => Pos::Write(c.rng.below(written)),
            _ => Pos::Flush(c.rng.below(flushes.max(1))),
        };
        let (f, k) = match (c.rng.below(3), pos) {
            (0, Pos::Read(_)) => (Fault::Zero, io::ErrorKind::UnexpectedEof),
            (0, Pos::Write(_)) => (Fault::Zero, io::ErrorKind::WriteZero),
            _ => (Fault::Err(k), k),
        };
        c.note(format!("{pos:?} {f:?}"));
        c.feed(&format!("{pos:?} {f:?}"));
        let p = IoPlan { faults: vec![(pos, f)], ..p.clone() };
        let b = st.server(p, false);
        let link = b.link.clone();
        let got = drive("session", async { Ok(st.play(st.options::<MemStream<false>>(once(link), PATIENCE)).await) })?;
        let fired = !b.link.lock().fired.is_empty();
        let flat = |l: &[Vec<Ev>]| l.iter().flatten().cloned().collect::<Vec<_>>();
        let (w, g) = (flat(&want), flat(&got));
        let diff = w.iter().zip(&g).position(|(a, b)| !same_ev(a, b));
        match diff {
            None => {
                if g.len() == w.len() {
                    ensure!(!fired, "swallowed", "{f:?} at {pos:?} was reported by nothing");
                    c.count("faults that never happened", 1);
                } else {
                    return violation("wrong error", format!("{f:?} at {pos:?}: {} observations instead of {}", g.len(), w.len()));
                }
            }
            Some(i) => {
                ensure!(fired, "changed", "without a fault observation {i} is {} instead of {}", brief(&g[i]), brief(&w[i]));
                let ok = matches!(&g[i], Ev::Err(Kind::Io(x)) if *x == k);
                ensure!(ok, "wrong error", "{f:?} at {pos:?}: observation {i} is {} instead of an I/O error of kind {k:?}", brief(&g[i]));
                c.count(
                    match pos {
                        Pos::Read(_) => "read errors reported",
                        Pos::Write(_) => "write errors reported",
                        Pos::Flush(_) => "flush errors reported",
                    },
                    1,
                );
                if i == 0 {
                    c.count("errors during the login", 1);
                }
            }
        }
    }
    Ok(())
}

/// The transport itself cannot be opened.
fn unconnected(c: &mut Case) -> CaseResult {
    let k = *c.rng.pick(&ERRORS);
    c.feed(&format!("{k:?}"));
    let make = move || -> io::Result<Box<dyn StreamRequirements>> { Err(k.into()) };
    let st = Story { steps: vec![], dep: true, auth: None, pass: String::new() };
    let got = drive("connect", async { Ok(st.play(st.options::<Carrier<false>>(CarrierOptions::new(make), PATIENCE)).await) })?;
    ensure!(matches!(&got[0][0], Ev::Err(Kind::Io(x)) if *x == k), "wrong error", "connecting failed with {k:?}, reported {}", brief(&got[0]));
    c.count("connect errors", 1);
    Ok(())
}

// ---------------------------------------------------------------- sockets

fn real<T>(f: impl std::future::Future<Output = T>) -> Result<T, Fail> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| Fail::Inconclusive(format!("no runtime: {e}")))?;
    rt.block_on(async { tokio::time::timeout(Duration::from_secs(200), f).await }).map_err(|_| Fail::Inconclusive("a session over a socket took 200 s".into()))
}

fn address(a: &libc::sockaddr_storage) -> Option<SocketAddr> {
    // SAFETY: the family says what the storage holds
    unsafe {
        match a.ss_family as i32 {
            libc::AF_INET => {
                let a = &*(a as *const _ as *const libc::sockaddr_in);
                Some(SocketAddr::from((u32::from_be(a.sin_addr.s_addr).to_be_bytes(), u16::from_be(a.sin_port))))
            }
            libc::AF_INET6 => {
                let a = &*(a as *const _ as *const libc::sockaddr_in6);
                Some(SocketAddr::from((a.sin6_addr.s6_addr, u16::from_be(a.sin6_port))))
            }
            _ => None,
        }
    }
}

/// The no-delay flag of the socket of this process between these addresses.
fn flag_of(local: SocketAddr, peer: SocketAddr) -> Option<bool> {
    for e in std::fs::read_dir("/proc/self/fd").ok()?.flatten() {
        let Some(fd) = e.file_name().to_str().and_then(|s| s.parse::<i32>().ok()) else { continue };
        // SAFETY: plain queries into zeroed buffers of the right size
        unsafe {
            let mut a: libc::sockaddr_storage = std::mem::zeroed();
            let mut z: libc::sockaddr_storage = std::mem::zeroed();
            let mut l = std::mem::size_of_val(&a) as libc::socklen_t;
            if libc::getsockname(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut l) != 0 {
                continue;
            }
            let mut l = std::mem::size_of_val(&z) as libc::socklen_t;
            if libc::getpeername(fd, &mut z as *mut _ as *mut libc::sockaddr, &mut l) != 0 {
                continue;
            }
            if address(&a) != Some(local) || address(&z) != Some(peer) {
                continue;
            }
            let mut v: libc::c_int = 0;
            let mut l = std::mem::size_of_val(&v) as libc::socklen_t;
            if libc::getsockopt(fd, libc::IPPROTO_TCP, libc::TCP_NODELAY, &mut v as *mut _ as *mut libc::c_void, &mut l) != 0 {
                continue;
            }
            return Some(v != 0);
        }
    }
    None
}

fn inc<T>(r: io::Result<T>) -> Result<T, Fail> {
    r.map_err(|e| Fail::Inconclusive(format!("loopback: {e}")))
}

/// Real sockets: the right host, the right port, the configured flag, and a whole session.
fn tcp(c: &mut Case) -> CaseResult {
    let sh = shape(c);
    let st = story(c, 3, sh);
    let hosts = [("127.0.0.1", "127.0.0.1"), ("127.0.0.2", "127.0.0.2"), ("localhost", "127.0.0.1"), ("::1", "::1"), ("127.1.2.3", "127.1.2.3")];
    let mut pick = *c.rng.pick(&hosts);
    let listen = |ip: &str, port: u16| TcpListener::bind((ip, port));
    let main = match listen(pick.1, 0) {
        Ok(l) => l,
        Err(_) => {
            pick = hosts[0];
            inc(listen(pick.1, 0))?
        }
    };
    let port = inc(main.local_addr())?.port();
    // wrong turns: the same port elsewhere, other ports here
    let mut others = Vec::new();
    if pick.0 != "localhost" {
        for ip in ["127.0.0.1", "127.0.0.2", "127.1.2.3", "::1", "127.0.0.9"] {
            if ip != pick.1 {
                others.extend(listen(ip, port));
            }
        }
    }
    for near in [port.wrapping_add(1), port.wrapping_sub(1), port.swap_bytes(), port & 0xff, port | 0x8000] {
        if near != port && near != 0 {
            others.extend(listen(pick.1, near));
        }
    }
    for l in &others {
        inc(l.set_nonblocking(true))?;
    }
    inc(main.set_nonblocking(true))?;
    let nodelay = c.rng.coin();
    c.note(format!("{} port {port} nodelay {nodelay}, {} other listeners", pick.0, others.len()));
    c.feed(&(pick.0, nodelay));
    let b = st.server(IoPlan::default(), false);
    let opts = || TcpStreamOptions { host: pick.0.into(), port, nodelay };
    let link = b.link.clone();
    let rng = Rng::new(&[c.rng.u64()]);
    // whatever else on this machine connects to an open port is not the client's doing: compare ports
    let (got, peer, flag) = real(async {
        let l = inc(tokio::net::TcpListener::from_std(main))?;
        // the transport alone
        let lone = match <TcpStream as Stream>::connect(&opts()).await {
            Ok(s) => (s.peer_addr().ok(), s.nodelay().ok()),
            Err(e) => return violation("tcp", format!("connecting to {} port {port} failed: {e}", pick.0)),
        };
        let (to, flag) = lone;
        ensure!(to.is_some_and(|p| p.port() == port && p.ip().to_string() == pick.1), "tcp", "connected to {to:?} instead of {} port {port}", pick.0);
        ensure!(flag == Some(nodelay), "nodelay", "nodelay is {flag:?}, configured {nodelay}");
        let _ = inc(l.accept().await)?;
        let seen = Arc::new(std::sync::Mutex::new(None));
        let s2 = seen.clone();
        let task = tokio::spawn(async move {
            let Ok((s, a)) = l.accept().await else { return };
            *lock(&s2) = s.local_addr().ok().map(|me| (a, me));
            serve(s, link, rng).await;
        });
        let mut flag = None;
        let connected = || flag = lock(&seen).and_then(|(a, z)| flag_of(a, z));
        let got = st.play_and(st.options::<TcpStream>(opts(), Duration::from_secs(60)), connected).await;
        if matches!(got[0][0], Ev::Started) {
            let _ = task.await;
        }
        let peer = lock(&seen).map(|s| s.0);
        Ok::<_, Fail>((got, peer, flag))
    })??;
    ensure!(peer.is_some(), "tcp", "no connection arrived at {} port {port}: {}", pick.0, brief(&got[0]));
    st.check("tcp", &got, &b)?;
    match flag {
        Some(f) => {
            ensure!(f == nodelay, "nodelay", "the connection's nodelay is {f}, configured {nodelay}");
            c.count("no-delay flags of live connections", 1);
        }
        None => c.count("sockets not found", 1),
    }
    for l in &others {
        if let Ok((_, a)) = l.accept() {
            if a.port() == peer.map_or(0, |p| p.port()) {
                return violation("tcp", format!("a connection arrived at {:?}", l.local_addr()));
            }
        }
    }
    c.count("sessions over TCP", 1);
    Ok(())
}

/// Nobody listens, or nobody knows the host.
fn tcp_refused(c: &mut Case) -> CaseResult {
    let st = Story { steps: vec![], dep: true, auth: None, pass: String::new() };
    let l = inc(TcpListener::bind(("127.0.0.1", 0)))?;
    let port = inc(l.local_addr())?.port();
    drop(l);
    let (host, k) = match c.rng.below(3) {
        0 => ("not a host name", None),
        _ => ("127.0.0.1", Some(io::ErrorKind::ConnectionRefused)),
    };
    c.feed(&host);
    let nodelay = c.rng.coin();
    let got = real(st.play(st.options::<TcpStream>(TcpStreamOptions { host: host.into(), port, nodelay }, Duration::from_secs(120))))?;
    match &got[0][0] {
        Ev::Err(Kind::Io(x)) if k.is_none_or(|k| k == *x) => {
            c.count("connect errors", 1);
            Ok(())
        }
        // somebody took the port meanwhile
        e if k.is_some() && matches!(e, Ev::Err(Kind::Io(_))) => inconclusive(format!("port {port} is in use: {e:?}")),
        e => violation("wrong error", format!("connecting to {host:?} gave {}", brief(e))),
    }
}

/// Unix sockets with small buffers, whole sessions with large packets.
fn unix(c: &mut Case) -> CaseResult {
    let big = c.rng.chance(1, 3);
    let st = story(c, 3, Shape { max_bytes: if big { 2_000_000 } else { 3000 }, max_rows: 3, bad_rows: 0, ..Default::default() });
    let b = st.server(IoPlan::default(), true);
    let link = b.link.clone();
    let rng = Rng::new(&[c.rng.u64()]);
    let got = real(async {
        let (a, z) = inc(std::os::unix::net::UnixStream::pair())?;
        for s in [&a, &z] {
            inc(s.set_nonblocking(true))?;
            let v: libc::c_int = 2048;
            // SAFETY: a plain option of an open socket
            unsafe {
                for o in [libc::SO_SNDBUF, libc::SO_RCVBUF] {
                    libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, o, &v as *const _ as *const libc::c_void, std::mem::size_of_val(&v) as u32);
                }
            }
        }
        let z = inc(tokio::net::UnixStream::from_std(z))?;
        let task = tokio::spawn(serve(z, link, rng));
        let a = std::sync::Mutex::new(Some(a));
        let make = move || -> io::Result<Box<dyn StreamRequirements>> {
            match lock(&a).take() {
                Some(a) => Ok(Box::new(tokio::net::UnixStream::from_std(a)?)),
                None => Err(io::ErrorKind::NotFound.into()),
            }
        };
        let got = st.play(st.options::<Carrier<true>>(CarrierOptions::new(make), Duration::from_secs(120))).await;
        if matches!(got[0][0], Ev::Started) {
            let _ = task.await;
        }
        Ok::<_, Fail>(got)
    })??;
    st.check("unix socket", &got, &b)?;
    c.count("sessions over Unix sockets", 1);
    Ok(())
}

pub fn main() {
    let _: fn(Error) -> Kind = |e| kind(&e);
    Check::new("C29", "one case = one session over one transport (or with one set of faults); distinct by calls, kind of transport and its plan")
        .assume("loopback sockets of this machine stand for the network; errors of kind Interrupted and WouldBlock are outside the contract of AsyncRead and AsyncWrite")
        .group("transports", 12_000, 400_000, transports)
        .group("sizes", 150, 6_000, sizes)
        .group_on(4, "big", 16, 600, big)
        .group("faults", 6_000, 200_000, faults)
        .group("unconnected", 30, 300, unconnected)
        .group("tcp", 300, 4_000, tcp)
        .group_on(2, "tcp_refused", 40, 300, tcp_refused)
        .group("unix", 200, 4_000, unix)
        .require("sessions", 5_000)
        .require("read errors reported", 2_000)
        .require("write errors reported", 2_000)
        .require("flush errors reported", 1_000)
        .require("errors during the login", 500)
        .require("big commands answered", 5)
        .require("no-delay flags of live connections", 50)
        .require("connect errors", 50)
        .main()
}
