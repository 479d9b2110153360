//! C14: the login negotiates within the server's abilities and states the identity.
use vharness::{auth::*, kit::*, *};

struct Version {
    text: String,
    /// what has to be reported; None: anything goes
    want: Option<((u16, u16, u16), bool)>,
}

fn version(r: &mut Rng) -> Version {
    let n = |r: &mut Rng| match r.below(4) {
        0 => r.below(10) as u16,
        1 => r.below(100) as u16,
        2 => *r.pick(&[0u16, 255, 256, 999, 1000, 65535]),
        _ => r.edgy(16) as u16,
    };
    let v = match r.below(3) {
        0 => *r.pick(&[(8, 0, 36), (5, 7, 44), (5, 5, 3), (5, 5, 2), (5, 6, 10), (9, 1, 0), (10, 11, 2), (11, 4, 2), (5, 5, 6)]),
        _ => (n(r), n(r), n(r)),
    };
    // MariaDB puts 5.5.5 in front of its versions, so that this one cannot be told apart
    let v = if v == (5, 5, 5) { (5, 5, 6) } else { v };
    let num = format!("{}.{}.{}", v.0, v.1, v.2);
    let (text, maria) = match r.below(12) {
        0..=2 => (num, false),
        3 => (format!("{num}-{}", r.pick(&["log", "0ubuntu0.22.04.1", "debug", "rds.20230605", "TiDB-v7.1.0", "google-log", "28", "dmr"])), false),
        4 => (format!("{num}+deb11u1"), false),
        5 => (format!("{num}-MariaDB"), true),
        6 => (format!("{num}-MariaDB-1:10.11.2+maria~ubu2204"), true),
        7 => (format!("5.5.5-{num}-MariaDB"), true),
        8 => (format!("5.5.5-{num}-MariaDB-log"), true),
        9 => (format!("{num}-{}-MariaDB-enterprise-log", r.below(30)), true),
        10 => (format!("{num}{}", r.pick(&["a", "-a", "rc", "b.1", "_x"])), false),
        _ => {
            // not a version at all
            let t = match r.below(6) {
                0 => String::new(),
                1 => "8".into(),
                2 => "8.0".into(),
                3 => "99999.1.2".into(),
                4 => "MariaDB".into(),
                _ => r.text(30).replace('\0', ""),
            };
            return Version { text: t, want: None };
        }
    };
    Version { text, want: Some((v, maria)) }
}

fn name(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => r.text(80).replace('\0', ""),
        2 => {
            let n = *r.pick(&[250usize, 251, 255, 256, 1000, 70_000]);
            r.ascii(n)
        }
        _ => {
            let n = r.range(1, 32) as usize;
            r.ascii(n)
        }
    }
}

fn logins(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let v = version(r);
    let plugin = *r.pick(&Plugin::ALL);
    let known = r.chance(9, 10);
    let mut g = Greeting {
        version: v.text.clone(),
        conn_id: r.edgy(32) as u32,
        nonce: nonce(r),
        collation: r.u8(),
        status: r.u64() as u16,
        plugin: if known { plugin.name().into() } else { (*r.pick(&["auth_socket", "sha256_password", "", "client_ed25519"])).into() },
        plugin_nul: r.chance(3, 4),
        ..Default::default()
    };
    // abilities: everything, each one missing, anything
    match r.below(4) {
        0 => {}
        1 => g.caps &= !(1 << r.below(32)),
        2 => {
            let keep = [caps::PLUGIN_AUTH, caps::PLUGIN_AUTH_LENENC, caps::DEPRECATE_EOF, caps::CONNECT_WITH_DB, caps::TRANSACTIONS, caps::PS_MULTI_RESULTS];
            for k in keep {
                if r.coin() {
                    g.caps &= !k;
                }
            }
        }
        _ => {
            g.caps = r.u64() as u32;
            if r.chance(7, 8) {
                g.caps |= caps::PROTOCOL_41 | caps::SECURE_CONNECTION;
            }
        }
    }
    let user = name(r);
    let db = if r.coin() { Some(name(r)) } else { None };
    let forced = if r.coin() { Some(*r.pick(&Plugin::ALL)) } else { None };
    let pass = match r.below(3) {
        0 => String::new(),
        1 => {
            let n = *r.pick(&[1usize, 20, 250, 251, 255, 256, 300]);
            r.ascii(n)
        }
        _ => password(r),
    };
    let limit = match r.below(3) {
        0 => None,
        1 => Some(*r.pick(&[1024usize, 4 << 20, 1 << 30, 0xFFFF_FFFF, 0x1_0000_0000, usize::MAX, 0])),
        _ => Some(r.edgy(48) as usize),
    };
    let offered = match r.below(3) {
        0 => *r.pick(&[1024u64, 4 << 20, 16 << 20, 64 << 20, 1 << 30, u32::MAX as u64]),
        _ => r.edgy(30),
    };
    c.note(format!(
        "greeting {g:?}; user {user:?} db {db:?} forced {forced:?} password {} bytes limit {limit:?} offered {offered}",
        pass.len()
    ));

    let mut srv = Server::new(|s: &mut Session, io: &mut PeerIo, cmd: Cmd| {
        if !matches!(cmd, Cmd::Quit) {
            s.ok(io, &OkSpec { affected: 1, status: 2, ..Default::default() });
        }
    })
    .greeting(g.clone());
    srv.max_allowed_packet = offered;
    let plan = if c.rng.chance(1, 4) { IoPlan::random(&mut c.rng) } else { IoPlan::default() };
    let (link, sess) = srv.link(plan);
    let mut o = opts(once(link.clone()));
    o.user = user.clone();
    o.password = pass.clone();
    o.db_name = db.clone();
    o.auth_plugin = forced.map(Plugin::option);
    o.allow_cleartext_password = true;
    o.max_allowed_packet = limit;
    let res = drive("login", async {
        Ok(match mysql_connector::Connection::connect(std::sync::Arc::new(o)).await {
            Ok(conn) => {
                let d = conn.data();
                let seen = (d.id(), d.version(), d.is_mariadb(), d.capabilities().bits(), d.max_allowed_packet());
                must(conn.disconnect().await, "disconnect", "disconnect")?;
                Ok(seen)
            }
            Err(e) => Err(brief(e)),
        })
    })?;
    frames_ok(&link)?;
    let sess = lock(&sess);
    ensure!(sess.protocol_errors.is_empty(), "layout", "the server cannot read the client: {:?}", sess.protocol_errors);

    let mut required = caps::PROTOCOL_41 | caps::SECURE_CONNECTION;
    if db.is_some() {
        required |= caps::CONNECT_WITH_DB;
    }
    let able = g.caps & required == required;
    let greeted = if g.caps & caps::PLUGIN_AUTH == 0 || !known { None } else { Some(plugin) };
    // a server that names no (known) plugin is taken for one that uses the oldest
    let plugin = forced.or(greeted).unwrap_or(Plugin::Native);
    let secret_len = match plugin {
        Plugin::Clear => pass.len(),
        _ => 32,
    };
    let fits = g.caps & caps::PLUGIN_AUTH_LENENC != 0 || secret_len <= 255;
    if !able {
        ensure!(res.is_err(), "unable server", "the server lacks {:#x}, the login succeeded", required & !g.caps);
        ensure!(link.lock().transcript.is_empty(), "unable server", "the server lacks {:#x}, a login was sent", required & !g.caps);
        c.count("unable servers refused", 1);
        return Ok(());
    }
    if !fits {
        ensure!(res.is_err(), "long secret", "the server reads at most 255 bytes, {secret_len} were sent");
        c.count("secrets the server cannot read", 1);
        return Ok(());
    }
    let (id, ver, maria, common, max) = match res {
        Ok(x) => x,
        Err(e) => return violation("login failed", format!("the login failed: {e}")),
    };
    let l = &sess.login;
    ensure!(l.caps & !g.caps == 0, "abilities", "the login announces {:#x}, which the server did not offer", l.caps & !g.caps);
    ensure!(l.caps & required == required, "abilities", "the login does not announce {:#x}", required & !l.caps);
    ensure!(l.rest.is_empty() && l.filler_zero, "layout", "the login has {} stray bytes, filler is zero: {}", l.rest.len(), l.filler_zero);
    ensure!(l.user == user.as_bytes(), "identity", "user {user:?} was sent as {}", brief(String::from_utf8_lossy(&l.user)));
    ensure!(l.db.as_deref() == db.as_ref().map(|d| d.as_bytes()), "identity", "database {db:?} was sent as {}", brief(&l.db));
    let named = (g.caps & caps::PLUGIN_AUTH != 0).then(|| plugin.name().as_bytes());
    ensure!(l.plugin.as_deref() == named, "identity", "plugin {plugin:?} was sent as {}", brief(&l.plugin));
    let want_len = match plugin {
        _ if pass.is_empty() && plugin != Plugin::Clear => vec![0],
        Plugin::Native => vec![20],
        Plugin::Sha2 => vec![32],
        Plugin::Clear => vec![pass.len(), pass.len() + 1],
    };
    ensure!(want_len.contains(&l.auth.len()), "layout", "the proof has {} bytes, not {want_len:?}", l.auth.len());
    // texts are sent as UTF-8
    ensure!(matches!(l.collation, 33 | 45 | 46 | 76 | 83 | 192..=215 | 223..=247 | 254 | 255), "collation", "collation {}", l.collation);
    if let Some(m) = limit {
        ensure!(l.max_packet as usize == m.min(u32::MAX as usize), "packet limit", "limit {m} was sent as {}", l.max_packet);
    }

    ensure!(id == g.conn_id, "connection data", "connection id {id}, not {}", g.conn_id);
    if let Some((v, m)) = v.want {
        ensure!(ver == v && maria == m, "version", "version {:?} is reported as {ver:?}, MariaDB {maria}", g.version);
        c.count(if m { "MariaDB versions" } else { "MySQL versions" }, 1);
    }
    ensure!(common & !g.caps == 0, "connection data", "abilities {:#x} are reported, which the server did not offer", common & !g.caps);
    ensure!(
        common == l.caps,
        "connection data",
        "abilities {common:#x} are reported, the login announced {:#x}",
        l.caps
    );
    let want = limit.map_or(offered, |x| x as u64);
    ensure!(max as u64 == want, "packet limit", "packet limit {max}, not {want}");
    c.count("logins read back", 1);
    c.count(if db.is_some() { "with database" } else { "without database" }, 1);
    if limit.is_none() {
        c.count("packet limits asked", 1);
    }
    if !g.caps & caps::PLUGIN_AUTH_LENENC != 0 {
        c.count("with short secrets", 1);
    }
    if named.is_none() {
        c.count("without plugins", 1);
    }
    c.feed(&(g.caps, &g.version, &user, &db, forced, limit, offered));
    c.sample(format!("{} -> {ver:?} {maria} caps {common:#x}", g.version));
    Ok(())
}

/// Names that the login packet cannot hold.
fn zero(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let bad = {
        let (a, b) = (r.usize(6), r.usize(6));
        format!("{}\0{}", r.ascii(a), r.ascii(b))
    };
    let (user, db) = match r.below(3) {
        0 => (bad.clone(), None),
        1 => (bad.clone(), Some("db".to_string())),
        _ => ("user".to_string(), Some(bad.clone())),
    };
    let (link, sess) = server(|_: &mut Session, _: &mut PeerIo, _: Cmd| {}, IoPlan::default());
    let mut o = opts(once(link.clone()));
    o.user = user.clone();
    o.db_name = db.clone();
    let res = drive("login", async { Ok(mysql_connector::Connection::connect(std::sync::Arc::new(o)).await.map(|_| ())) })?;
    c.note(format!("user {user:?} db {db:?} -> {}", brief(&res)));
    let l = lock(&sess).login.clone();
    ensure!(
        res.is_err() && link.lock().transcript.is_empty(),
        "zero byte in a name",
        "user {user:?} and database {db:?} cannot be sent; the server read {:?} and {:?}",
        String::from_utf8_lossy(&l.user),
        l.db.map(|x| String::from_utf8_lossy(&x).into_owned())
    );
    c.count("names that cannot be sent", 1);
    c.feed(&(user, db));
    Ok(())
}

pub fn main() {
    Check::new("C14", "one case = one login; distinct by greeting, identity and options")
        .assume("version strings are major.minor.patch with whatever follows, MariaDB's contain its name")
        .scale(20)
        .group("logins", 12_000, 400_000, logins)
        .group("zero", 300, 3000, zero)
        .require("logins read back", 5000)
        .require("packet limits asked", 1000)
        .require("without plugins", 200)
        .require("with short secrets", 1000)
        .require("unable servers refused", 200)
        .require("secrets the server cannot read", 20)
        .require("MariaDB versions", 500)
        .main()
}
