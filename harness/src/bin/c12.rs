//! C12: login succeeds exactly when the server accepted valid credentials.
//! C12's sibling checks (C10, C13, C28) use the same server.
use vharness::{auth::*, kit::*, *};

struct Setup {
    cfg: AuthCfg,
    forced: Option<Plugin>,
    pinned: bool,
    client_pass: String,
    client_user: String,
    greeting: Greeting,
    allow_clear: bool,
}

fn setup(c: &mut Case) -> Setup {
    let rng = &mut c.rng;
    let plugin = *rng.pick(&Plugin::ALL);
    let mut pass = password(rng);
    if plugin == Plugin::Clear {
        // sent NUL-terminated
        pass.retain(|c| c != '\0');
    }
    let user = match rng.below(4) {
        0 => String::new(),
        1 => rng.text(40).replace('\0', ""),
        _ => "user".into(),
    };
    let secure = rng.coin();
    // keys big enough for the password
    let need = (pass.len() + 1 + 42) * 8;
    let keys: Vec<&Key> = KEYS.iter().filter(|k| k.bits >= need && k.bits <= 1536).collect();
    let key = (*rng.pick(&keys)).clone();
    let pem = random_pem(rng, &key);
    let default = *rng.pick(&[Plugin::Native, Plugin::Sha2, Plugin::Sha2, plugin]);
    // a forced plugin other than the account's makes the login impossible (see C13)
    let forced = if rng.coin() { Some(plugin) } else { None };
    let deny = if rng.chance(1, 3) {
        *rng.pick(&[Deny::AtLogin, Deny::AfterSwitch, Deny::AtMore, Deny::AfterFast, Deny::AtKey, Deny::AtEnd])
    } else {
        Deny::No
    };
    let n1 = nonce(rng);
    let wrong_pass = rng.chance(1, 6);
    let client_pass = if wrong_pass {
        match rng.below(3) {
            0 if !pass.is_empty() => String::new(),
            1 => format!("{pass}x"),
            _ => loop {
                let p = rng.ascii(8);
                if p != pass {
                    break p;
                }
            },
        }
    } else {
        pass.clone()
    };
    let client_user = if rng.chance(1, 20) { format!("{user}2") } else { user.clone() };
    let cfg = AuthCfg {
        user,
        pass,
        plugin,
        full: rng.coin(),
        force_switch: rng.chance(1, 5),
        nonce: n1.clone(),
        switch_nonce: nonce(rng),
        switch_nul: rng.chance(3, 4),
        secure,
        key,
        pem,
        deny,
        error: gen::err(rng),
        ok: OkSpec { status: 2, ..gen::ok(rng) },
    };
    let greeting = Greeting {
        nonce: n1,
        plugin: default.name().into(),
        plugin_nul: rng.chance(3, 4),
        version: (*rng.pick(&["8.0.36", "5.7.44", "5.5.5-10.11.2-MariaDB", "9.1.0", "5.5.2"])).into(),
        caps: caps::MODERN & if rng.chance(1, 4) { !caps::PLUGIN_AUTH_LENENC } else { !0 },
        ..Default::default()
    };
    let pinned = rng.chance(1, 3);
    Setup { cfg, forced, pinned, client_pass, client_user, greeting, allow_clear: true }
}

fn go<const S: bool>(c: &mut Case, s: Setup) -> CaseResult {
    let (auth, log) = AuthServer::new(s.cfg.clone());
    let srv = Server::new(|sess: &mut Session, io: &mut PeerIo, cmd: Cmd| {
        if !matches!(cmd, Cmd::Quit) {
            sess.ok(io, &OkSpec { affected: 77, status: 2, ..Default::default() });
        }
    })
    .greeting(s.greeting.clone())
    .login(auth);
    let plan = if c.rng.coin() { IoPlan::default() } else { IoPlan::random(&mut c.rng) };
    let (link, _) = srv.link(plan);
    let mut o = opts_of::<S>(once(link.clone()));
    o.user = s.client_user.clone();
    o.password = s.client_pass.clone();
    o.auth_plugin = s.forced.map(Plugin::option);
    o.allow_cleartext_password = s.allow_clear;
    if s.pinned {
        o.server_key = Some(std::sync::Arc::new(mysql_connector::PublicKey::new(s.cfg.key.n.clone(), s.cfg.key.e.clone())));
    }
    c.note(format!(
        "account {:?} plugin {:?} pass {:?} full {} secure {} deny {:?} force_switch {}; greeting plugin {}; client user {:?} pass {:?} forced {:?} pinned {}; key {} bits",
        s.cfg.user, s.cfg.plugin, s.cfg.pass, s.cfg.full, S, s.cfg.deny, s.cfg.force_switch, s.greeting.plugin, s.client_user, s.client_pass, s.forced, s.pinned, s.cfg.key.bits
    ));
    let res = drive("login", async {
        match mysql_connector::Connection::connect(std::sync::Arc::new(o)).await {
            Ok(mut conn) => {
                let ok = must(conn.execute_query("x").await, "first command", "the first command after the login")?;
                ensure!(ok.affected_rows() == 77, "first command", "wrong answer {}", ok.affected_rows());
                must(conn.disconnect().await, "disconnect", "disconnect")?;
                Ok(Ok(()))
            }
            Err(e) => Ok(Err(e)),
        }
    })?;
    frames_ok(&link)?;
    let log = lock(&log);
    for e in &log.events {
        c.count(&format!("event: {e}"), 1);
    }
    c.note(format!("events {:?} wrong {:?} result {}", log.events, log.wrong, brief(&res)));
    let right = s.client_pass == s.cfg.pass && s.client_user == s.cfg.user;
    match &res {
        Ok(()) => {
            ensure!(log.accepted, "success without acceptance", "login reported success, the server never accepted: {:?}", log.events);
            c.count("logins accepted", 1);
        }
        Err(e) => {
            ensure!(!log.accepted, "failure after acceptance", "the server accepted, the login failed: {}", brief(e));
            match &log.refused {
                Some(want) => {
                    ensure!(is_server(e, want), "wrong error", "refused with {}, reported {}", brief(want), brief(e));
                    c.count("logins refused", 1);
                }
                None => {
                    // the client gave up by itself
                    ensure!(!right, "gave up", "credentials are right, nobody refused, the login failed: {} ({:?})", brief(e), log.events);
                    c.count("logins given up", 1);
                }
            }
        }
    }
    if right {
        ensure!(log.wrong.is_empty(), "wrong proof", "{:?} ({:?})", log.wrong, log.events);
        if s.pinned {
            ensure!(log.key_requests == 0, "key request", "a key is configured, the client asked for the server's");
        }
        // the refusal has to be one that was scripted
        if log.refused.is_some() {
            ensure!(s.cfg.deny != Deny::No, "refused", "valid credentials were refused: {:?}", log.wrong);
        }
    } else {
        ensure!(!log.accepted, "harness", "wrong credentials accepted");
    }
    c.feed(&(s.cfg.plugin, s.cfg.full, S, s.cfg.deny, s.cfg.force_switch, s.forced, s.pinned, s.cfg.pass.len(), right));
    c.feed(&s.greeting.plugin);
    c.sample(format!("{:?} -> {}", log.events, if res.is_ok() { "ok" } else { "error" }));
    Ok(())
}

fn logins(c: &mut Case) -> CaseResult {
    let s = setup(c);
    if s.cfg.secure {
        go::<true>(c, s)
    } else {
        go::<false>(c, s)
    }
}

/// Passwords so long that they need other encodings (clear text only; nothing else depends on the length).
fn long(c: &mut Case) -> CaseResult {
    let mut s = setup(c);
    let n = *c.rng.pick(&[100usize, 250, 251, 252, 255, 256, 257, 300, 1000, 65535, 70_000]);
    let p = c.rng.ascii(n);
    s.client_pass = p.clone();
    s.client_user = s.cfg.user.clone();
    s.cfg.pass = p;
    s.greeting.caps |= caps::PLUGIN_AUTH_LENENC;
    if s.cfg.plugin == Plugin::Sha2 && s.cfg.full && !s.cfg.secure {
        s.cfg.full = false;
    }
    c.count("long passwords", 1);
    if s.cfg.secure {
        go::<true>(c, s)
    } else {
        go::<false>(c, s)
    }
}

/// A server that says everything but OK.
struct Evasive {
    answers: Vec<Vec<u8>>,
    at: usize,
    all_at_once: bool,
}

impl server::Login for Evasive {
    fn packet(&mut self, io: &mut PeerIo, _s: &mut Session, _pkt: &[u8], _first: bool) -> bool {
        loop {
            match self.answers.get(self.at) {
                Some(a) => io.send(a),
                None => io.item(Item::Eof),
            }
            self.at += 1;
            if !self.all_at_once || self.at > self.answers.len() {
                return false;
            }
        }
    }
}

fn no_ok(c: &mut Case) -> CaseResult {
    let rng = &mut c.rng;
    let key = key_bits(1024);
    let mut key_pkt = vec![1];
    key_pkt.extend(random_pem(rng, key).into_bytes());
    let mut switch = vec![0xFE];
    switch.extend_from_slice(rng.pick(&Plugin::ALL).name().as_bytes());
    switch.push(0);
    switch.extend(nonce(rng));
    switch.push(0);
    let answers: Vec<Vec<u8>> = (0..rng.range(0, 5))
        .map(|_| match rng.below(10) {
            0 | 1 => vec![1, 3],
            2 | 3 => vec![1, 4],
            4 => key_pkt.clone(),
            5 | 6 => switch.clone(),
            7 => vec![],
            8 => OkSpec::default().encode(0xFE),
            _ => {
                let n = rng.usize(12);
                let mut b = rng.bytes(n);
                if b.first() == Some(&0) {
                    b[0] = 1;
                }
                b
            }
        })
        .collect();
    let srv = Server::new(|_: &mut Session, _: &mut PeerIo, _: Cmd| {})
        .greeting(Greeting { plugin: rng.pick(&Plugin::ALL).name().into(), ..Default::default() })
        .login(Evasive { answers: answers.clone(), at: 0, all_at_once: rng.coin() });
    let (link, _) = srv.link(IoPlan::default());
    let mut o = opts(once(link.clone()));
    o.password = password(rng);
    o.auth_plugin = if rng.coin() { Some(rng.pick(&Plugin::ALL).option()) } else { None };
    o.allow_cleartext_password = true;
    c.note(format!("answers {}", brief(&answers)));
    let r = drive("login", async { Ok(mysql_connector::Connection::connect(std::sync::Arc::new(o)).await.map(|_| ())) })?;
    ensure!(r.is_err(), "success without acceptance", "login reported success, the server sent {}", brief(&answers));
    c.count("logins without an OK", 1);
    c.feed(&answers);
    Ok(())
}

pub fn main() {
    Check::new("C12", "one case = one login; distinct by plugin, path, transport, refusal point, forced plugin, pinned key, password length")
        .assume("a server checks the proof as documented for each method; a client that is right about password and user must be let in")
        .scale(20)
        .group("logins", 4000, 200_000, logins)
        .group("long", 600, 10_000, long)
        .group("no_ok", 4000, 100_000, no_ok)
        .require("logins accepted", 1000)
        .require("logins refused", 300)
        .require("event: decrypted", 100)
        .require("event: switch to caching_sha2_password", 100)
        .require("event: switch to mysql_native_password", 100)
        .main()
}
