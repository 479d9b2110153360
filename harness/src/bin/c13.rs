//! C13: the password is never exposed beyond what the options allow.
use {
    mysql_connector::{Connection, PublicKey},
    std::sync::{Arc, Mutex},
    vharness::{auth::*, kit::*, stream::Peer, *},
};

/// One thing a hostile server may say.
#[derive(Clone, Debug)]
enum Say {
    Switch(String, Vec<u8>, bool),
    Fast,
    Full,
    Key(usize),
    Ok,
    Err,
    Junk(Vec<u8>),
}

#[derive(Default)]
struct Log {
    /// what was said and heard, in order
    lines: Vec<Line>,
}

#[derive(Clone, Debug)]
enum Line {
    Said(Say),
    Heard(Vec<u8>),
}

struct Hostile {
    greeting: Greeting,
    /// what is said after each packet of the client
    script: Vec<Vec<Say>>,
    pems: Vec<String>,
    at: usize,
    log: Arc<Mutex<Log>>,
}

impl Peer for Hostile {
    fn start(&mut self, io: &mut PeerIo) {
        io.send(&self.greeting.encode());
    }

    fn packet(&mut self, io: &mut PeerIo, pkt: Vec<u8>) {
        let mut log = lock(&self.log);
        log.lines.push(Line::Heard(pkt));
        let Some(list) = self.script.get(self.at) else {
            io.closed = true;
            io.item(Item::Eof);
            return;
        };
        self.at += 1;
        for s in list {
            log.lines.push(Line::Said(s.clone()));
            match s {
                Say::Switch(name, nonce, nul) => {
                    let mut p = vec![0xFE];
                    p.extend_from_slice(name.as_bytes());
                    p.push(0);
                    p.extend_from_slice(nonce);
                    if *nul {
                        p.push(0);
                    }
                    io.send(&p);
                }
                Say::Fast => io.send(&[1, 3]),
                Say::Full => io.send(&[1, 4]),
                Say::Key(k) => {
                    let mut p = vec![1];
                    p.extend_from_slice(self.pems[*k].as_bytes());
                    io.send(&p);
                }
                Say::Ok => {
                    io.send(&OkSpec { status: 2, ..Default::default() }.encode(0));
                    io.login = false;
                }
                Say::Err => io.send(&ErrSpec::new(1045, "28000", "no").encode()),
                Say::Junk(b) => io.send(b),
            }
        }
    }
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    !needle.is_empty() && hay.windows(needle.len()).any(|w| w == needle)
}

fn xored(pass: &[u8], nonce: &[u8]) -> Vec<u8> {
    pass.iter().enumerate().map(|(i, b)| b ^ nonce[i % nonce.len()]).collect()
}

fn any_nonce(rng: &mut Rng) -> Vec<u8> {
    match rng.below(6) {
        0 => vec![],
        1 => vec![0; 20],
        2 => rng.bytes(1),
        3 => rng.bytes(300),
        _ => nonce(rng),
    }
}

struct Opt {
    forced: Option<Plugin>,
    allow: bool,
    pinned: bool,
    pass: String,
}

fn go<const S: bool>(c: &mut Case, greeting: Greeting, script: Vec<Vec<Say>>, o: Opt) -> CaseResult {
    let keys = [key_bits(1024), KEYS.iter().filter(|k| k.bits >= 1024 && k.bits <= 1536).last().unwrap_or(key_bits(1024))];
    let pin = KEYS.iter().find(|k| k.bits > 1024 && k.n != keys[1].n).unwrap_or(key_bits(1024));
    let log: Arc<Mutex<Log>> = Default::default();
    let pems = keys.iter().map(|k| random_pem(&mut c.rng, k)).collect();
    let link = Link::new(
        Box::new(Hostile { greeting: greeting.clone(), script: script.clone(), pems, at: 0, log: log.clone() }),
        IoPlan::default(),
    );
    let mut x = opts_of::<S>(once(link.clone()));
    x.password = o.pass.clone();
    x.auth_plugin = o.forced.map(Plugin::option);
    x.allow_cleartext_password = o.allow;
    if o.pinned {
        x.server_key = Some(Arc::new(PublicKey::new(pin.n.clone(), pin.e.clone())));
    }
    c.note(format!(
        "secure {S}, forced {:?}, clear text allowed {}, pinned {}, password {:?}; greeting {} caps {:#x}; script {}",
        o.forced, o.allow, o.pinned, o.pass, greeting.plugin, greeting.caps, brief(&script)
    ));
    let res = drive("login", async {
        match Connection::connect(Arc::new(x)).await {
            Ok(conn) => {
                drop(conn);
                Ok(Ok(()))
            }
            Err(e) => Ok(Err(brief(e))),
        }
    })?;
    let lines = lock(&log).lines.clone();
    let sent = link.lock().transcript.clone();
    for l in &lines {
        match l {
            Line::Said(s) => c.count(&format!("demand: {}", format!("{s:?}").split('(').next().unwrap_or("")), 1),
            Line::Heard(_) => c.count("client packets inspected", 1),
        }
    }
    c.note(format!("exchange {} -> {}", brief(&lines), brief(&res)));

    let pass = o.pass.as_bytes();
    let greeted = if greeting.caps & caps::PLUGIN_AUTH == 0 { Some(Plugin::Native) } else { Plugin::of(greeting.plugin.as_bytes()) };
    let start = o.forced.or(greeted).unwrap_or(Plugin::Native);
    let mut clear_due = start == Plugin::Clear;
    let mut full_due = false;
    let mut nonces = vec![greeting.nonce.clone()];
    for (i, l) in lines.iter().enumerate() {
        let later = lines[i + 1..].iter().filter(|l| matches!(l, Line::Heard(_))).count();
        match l {
            Line::Said(Say::Switch(name, nonce, _)) => {
                nonces.push(nonce.clone());
                let p = Plugin::of(name.as_bytes());
                clear_due |= p == Some(Plugin::Clear);
                let heard_before = lines[..i].iter().filter(|l| matches!(l, Line::Heard(_))).count();
                // a switch that is the first thing the server says is certainly looked at
                let first = lines[..i].iter().all(|l| matches!(l, Line::Heard(_))) && heard_before == 1;
                if let (Some(f), true) = (o.forced, first) {
                    if p != Some(f) {
                        ensure!(res.is_err(), "mismatch accepted", "plugin {f:?} is forced, the server demanded {name}: no error");
                        ensure!(later == 0, "credentials for another plugin", "plugin {f:?} is forced, the server demanded {name}: {later} packets were sent");
                        c.count("mismatching plugins refused", 1);
                    }
                }
                if p == Some(Plugin::Clear) && !o.allow && first {
                    ensure!(res.is_err(), "clear text accepted", "clear text is not allowed, the server demanded it: no error");
                    ensure!(later == 0, "clear text answered", "clear text is not allowed, the server demanded it: {later} packets were sent");
                    c.count("clear text demands refused", 1);
                }
            }
            Line::Said(Say::Full) => full_due = true,
            _ => {}
        }
    }
    if start == Plugin::Clear && !o.allow {
        ensure!(res.is_err() && lines.is_empty(), "clear text in login", "clear text is not allowed, but the login packet was sent");
        c.count("clear text demands refused", 1);
    }
    // the password itself
    let excused = (o.allow && clear_due) || (S && full_due);
    if pass.len() >= 6 {
        if !excused {
            ensure!(!contains(&sent, pass), "password exposed", "the password was sent in the clear: {}", brief(&lines));
            c.count("transcripts searched", 1);
        } else if contains(&sent, pass) {
            c.count("passwords sent where allowed", 1);
        }
        if !S {
            for n in nonces.iter().filter(|n| !n.is_empty() && n.iter().any(|b| *b != 0)) {
                ensure!(!contains(&sent, &xored(pass, n)), "password exposed", "the password was sent merely XORed with the challenge");
            }
        }
    }
    // full authentication over an insecure transport
    if !S {
        // several packets may have been said in one burst, of which the client has read only some:
        // each challenge and each key said so far may be the one in use
        let mut challenges: Vec<Vec<u8>> = vec![greeting.nonce.clone(), greeting.nonce[..greeting.nonce.len().min(20)].to_vec()];
        let mut server_keys: Vec<usize> = Vec::new();
        let mut full = false;
        for l in &lines {
            match l {
                Line::Said(Say::Full) => full = true,
                Line::Said(Say::Key(k)) => server_keys.push(*k),
                Line::Said(Say::Switch(_, n, nul)) => {
                    challenges.push(n.clone());
                    if !*nul && n.last() == Some(&0) {
                        challenges.push(n[..n.len() - 1].to_vec());
                    }
                }
                Line::Heard(p) if full && p.as_slice() == [2] => {
                    ensure!(!o.pinned, "key request", "a key is pinned, the client asked for another one");
                    c.count("keys requested", 1);
                }
                Line::Heard(p) if full && p.len() >= 128 => {
                    let mine: Vec<_> = if o.pinned { vec![pin] } else { server_keys.iter().map(|k| keys[*k]).collect() };
                    ensure!(!mine.is_empty(), "encryption", "{} bytes were sent before any key was known", p.len());
                    let Some(m) = mine.iter().find_map(|k| oaep_decrypt(k, p).ok()) else {
                        return violation(
                            "encryption",
                            format!("the packet after the demand for full authentication is not encrypted to the {} key", if o.pinned { "pinned" } else { "server's" }),
                        );
                    };
                    let mut clear = pass.to_vec();
                    clear.push(0);
                    // without any challenge there is nothing to mask with
                    let known = challenges.iter().any(|n| if n.is_empty() { m == clear } else { m == xored(&clear, n) });
                    ensure!(known, "encryption", "the encrypted message is not the password masked with the challenge");
                    c.count(if o.pinned { "encrypted to the pinned key" } else { "encrypted to the server's key" }, 1);
                }
                _ => {}
            }
        }
    }
    c.feed(&(S, o.forced, o.allow, o.pinned, brief(&script)));
    Ok(())
}

fn demands(c: &mut Case) -> CaseResult {
    let r = &mut c.rng;
    let n = r.range(1, 4);
    let mut script: Vec<Vec<Say>> = Vec::new();
    // a plausible server first, to get deep into the exchange
    let start = *r.pick(&Plugin::ALL);
    let forced = if r.coin() { Some(*r.pick(&Plugin::ALL)) } else { None };
    let style = r.below(4);
    let say = |r: &mut Rng| match r.below(12) {
        0..=2 => {
            let p = *r.pick(&Plugin::ALL);
            Say::Switch(p.name().into(), any_nonce(r), r.coin())
        }
        3 => Say::Switch(r.pick(&["mysql_old_password", "sha256_password", "dialog", "", "mysql_clear_passwor", "MYSQL_CLEAR_PASSWORD"]).to_string(), nonce(r), true),
        4 => Say::Fast,
        5 | 6 => Say::Full,
        7 | 8 => Say::Key(r.usize(2)),
        9 => Say::Ok,
        10 => Say::Err,
        _ => {
            let n = r.usize(6);
            Say::Junk(r.bytes(n))
        }
    };
    match style {
        // straight to full authentication
        0 => script.extend([vec![Say::Full], vec![Say::Key(r.usize(2))], vec![Say::Ok]]),
        1 => {
            let p = *r.pick(&Plugin::ALL);
            script.extend([vec![Say::Switch(p.name().into(), nonce(r), r.chance(3, 4))], vec![Say::Full], vec![Say::Key(r.usize(2))], vec![Say::Ok]]);
        }
        2 => {
            let p = *r.pick(&Plugin::ALL);
            script.push(vec![Say::Switch(p.name().into(), any_nonce(r), r.coin())]);
            for _ in 0..n {
                script.push((0..r.range(1, 2)).map(|_| say(r)).collect());
            }
        }
        _ => {
            for _ in 0..n {
                script.push((0..r.range(1, 3)).map(|_| say(r)).collect());
            }
        }
    }
    let mut g = Greeting { nonce: nonce(r), plugin: start.name().into(), plugin_nul: r.coin(), ..Default::default() };
    if r.chance(1, 8) {
        g.plugin = "something_else".into();
    }
    if r.chance(1, 4) {
        g.caps &= !caps::PLUGIN_AUTH_LENENC;
    }
    if r.chance(1, 8) {
        g.caps &= !caps::PLUGIN_AUTH;
    }
    // short ones are not searched for, but the demands are judged all the same
    let n = if r.chance(1, 6) { r.usize(3) } else { r.range(6, 40) as usize };
    let o = Opt { forced, allow: r.chance(1, 3), pinned: r.chance(1, 3), pass: r.ascii(n) };
    if r.chance(1, 4) {
        go::<true>(c, g, script, o)
    } else {
        go::<false>(c, g, script, o)
    }
}

pub fn main() {
    Check::new("C13", "one case = one login against a hostile server; distinct by options and script")
        .assume("passwords that are searched for have at least six random characters, so that finding them by chance is out of the question")
        .scale(20)
        .group("demands", 6000, 250_000, demands)
        .require("client packets inspected", 5000)
        .require("transcripts searched", 3000)
        .require("clear text demands refused", 300)
        .require("mismatching plugins refused", 200)
        .require("encrypted to the pinned key", 50)
        .require("encrypted to the server's key", 50)
        .require("passwords sent where allowed", 50)
        .main()
}
