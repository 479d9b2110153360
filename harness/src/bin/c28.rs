//! C28: RSA keys parse and encrypt so that the key's owner can decrypt.
use {
    mysql_connector::PublicKey,
    num::BigUint,
    std::{collections::HashSet, sync::Mutex},
    vharness::{auth::*, kit::*, runner::catching, *},
};

/// A number of exactly `bits` bits.
fn number(rng: &mut Rng, bits: usize) -> BigUint {
    let mut b = rng.bytes(bits.div_ceil(8));
    if rng.chance(1, 8) {
        // long runs of equal bytes
        let v = *rng.pick(&[0u8, 0xff]);
        b.iter_mut().for_each(|x| *x = v);
    }
    let top = (bits - 1) % 8;
    b[0] &= (2u16.pow(top as u32 + 1) - 1) as u8;
    b[0] |= 1 << top;
    BigUint::from_bytes_be(&b)
}

fn size(rng: &mut Rng) -> usize {
    // around the places where the lengths of the encoding grow
    let octets = match rng.below(10) {
        0 => rng.range(1, 20) as usize,
        1 | 2 => rng.range(100, 140) as usize,
        3 | 4 => rng.range(220, 270) as usize,
        5 => rng.range(1, 1100) as usize,
        6 if rng.chance(1, 4) => rng.range(65_480, 65_560) as usize,
        _ => rng.range(30, 300) as usize,
    };
    octets * 8 - rng.below(8) as usize
}

/// Spreads white space over the text without tearing the markers.
fn wrapped(rng: &mut Rng, der: &[u8], one: bool) -> String {
    let what = if one { "RSA PUBLIC KEY" } else { "PUBLIC KEY" };
    let eol = *rng.pick(&["\n", "\r\n", "\r", "\n\n", " \n", "\t\r\n"]);
    let mut o = format!("-----BEGIN {what}-----{eol}");
    let body = base64(der);
    let mut left = body.as_str();
    let regular = if rng.coin() { Some(rng.range(1, 80) as usize) } else { None };
    while !left.is_empty() {
        let n = regular.unwrap_or_else(|| rng.range(1, 90) as usize).min(left.len());
        o += &left[..n];
        left = &left[n..];
        o += eol;
    }
    o += &format!("-----END {what}-----");
    if rng.chance(3, 4) {
        o += eol;
    }
    o
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Der1,
    Der8,
    Pem1,
    Pem8,
}

const FORMS: [Form; 4] = [Form::Der1, Form::Der8, Form::Pem1, Form::Pem8];

fn written(rng: &mut Rng, f: Form, n: &BigUint, e: &BigUint) -> Vec<u8> {
    match f {
        Form::Der1 => pkcs1(n, e),
        Form::Der8 => pkcs8(n, e),
        Form::Pem1 | Form::Pem8 => {
            let one = f == Form::Pem1;
            let der = if one { pkcs1(n, e) } else { pkcs8(n, e) };
            let width = *rng.pick(&[64usize, 76, 1, 1 << 20, 4, 65]);
            let eol = *rng.pick(&["\n", "\r\n"]);
            match rng.coin() {
                true => wrapped(rng, &der, one).into_bytes(),
                false => pem(&der, one, width, eol, rng.coin()).into_bytes(),
            }
        }
    }
}

fn read(f: Form, data: &[u8]) -> Result<Result<PublicKey, String>, Fail> {
    catching(|| {
        match f {
            Form::Der1 => PublicKey::try_from_pkcs1(data),
            Form::Der8 => PublicKey::try_from_pkcs8(data),
            Form::Pem1 | Form::Pem8 => PublicKey::try_from_pem(data),
        }
        .map_err(|e| format!("{e:?}"))
    })
    .map_err(|(at, m)| Fail::Violation { sig: "panic".into(), msg: format!("reading {f:?} {} panicked: {m} at {at}", hex(data)) })
}

fn hex(d: &[u8]) -> String {
    let s: String = d.iter().take(400).map(|b| format!("{b:02x}")).collect();
    format!("{s} ({} bytes)", d.len())
}

fn parse(c: &mut Case) -> CaseResult {
    let bits = size(&mut c.rng);
    let n = number(&mut c.rng, bits);
    let e = match c.rng.below(5) {
        0 => BigUint::from(3u8),
        1 => {
            let b = c.rng.range(1, 64) as usize;
            number(&mut c.rng, b)
        }
        2 if bits > 8 => {
            let b = c.rng.range(1, bits as u64) as usize;
            number(&mut c.rng, b.min(4096))
        }
        _ => BigUint::from(65537u32),
    };
    for f in FORMS {
        let data = written(&mut c.rng, f, &n, &e);
        c.note(format!("{f:?} modulus of {bits} bits: {}", hex(&data)));
        c.feed(&data);
        c.count(&format!("{f:?}"), 1);
        match read(f, &data)? {
            Err(err) => return violation("good key refused", format!("a {f:?} key of {bits} bits was refused: {err}")),
            Ok(k) => {
                ensure!(*k.modulus() == n, "wrong modulus", "{f:?}: modulus {:x}, not {n:x}", k.modulus());
                ensure!(*k.exponent() == e, "wrong exponent", "{f:?}: exponent {:x}, not {e:x}", k.exponent());
                ensure!(k.num_octets() == bits.div_ceil(8), "wrong length", "{f:?}: {} octets for {bits} bits", k.num_octets());
            }
        }
    }
    c.count("modulus bits", bits as u64);
    Ok(())
}

fn int(v: &[u8]) -> Vec<u8> {
    tlv(2, v)
}

fn tlv(tag: u8, v: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    match v.len() {
        l @ 0..=127 => o.push(l as u8),
        l @ 128..=255 => o.extend([0x81, l as u8]),
        l => o.extend([0x82, (l >> 8) as u8, l as u8]),
    }
    o.extend_from_slice(v);
    o
}

/// Data that is no key whatever one's reading of the formats.
fn malformed(c: &mut Case) -> CaseResult {
    let bits = c.rng.range(8, 2100) as usize;
    let n = number(&mut c.rng, bits);
    let e = BigUint::from(65537u32);
    let f = *c.rng.pick(&FORMS);
    let good = written(&mut c.rng, f, &n, &e);
    let rng = &mut c.rng;
    let pemf = matches!(f, Form::Pem1 | Form::Pem8);
    let (how, data): (&str, Vec<u8>) = if pemf {
        let s = String::from_utf8_lossy(&good).into_owned();
        let head = if f == Form::Pem1 { "-----BEGIN RSA PUBLIC KEY-----" } else { "-----BEGIN PUBLIC KEY-----" };
        let body_at = head.len();
        let end_at = s.rfind("-----END").unwrap_or(0);
        match rng.below(8) {
            0 => {
                // cut anywhere inside
                let at = rng.below(s.trim_end().len() as u64) as usize;
                ("cut", s[..at].into())
            }
            1 => {
                // other begin than end
                let o = if f == Form::Pem1 { s.replacen("BEGIN RSA PUBLIC", "BEGIN PUBLIC", 1) } else { s.replacen("BEGIN PUBLIC", "BEGIN RSA PUBLIC", 1) };
                ("begin and end differ", o.into())
            }
            2 => {
                let what = *rng.pick(&["PRIVATE KEY", "CERTIFICATE", "EC PUBLIC KEY", "RSA PRIVATE KEY"]);
                let o = s.replace("RSA PUBLIC KEY", what).replace("PUBLIC KEY", what).replace("EC EC", "EC");
                ("not a public key", o.into())
            }
            3 => {
                // a character that is not of the alphabet
                let at = body_at + 1 + rng.below((end_at - body_at - 1) as u64) as usize;
                let bad = *rng.pick(&[b'*', b'-', b'_', b'!', 0, 0x80, 0xff, b'.']);
                let mut d = s.into_bytes();
                // replace a character of the body, not a line end
                match (at..end_at).find(|i| d[*i].is_ascii_alphanumeric()) {
                    Some(i) => d[i] = bad,
                    None => d.insert(body_at + 1, bad),
                }
                ("bad character", d)
            }
            4 => {
                // the other kind of key between the markers
                let der = if f == Form::Pem1 { pkcs8(&n, &e) } else { pkcs1(&n, &e) };
                ("the other encoding", pem(&der, f == Form::Pem1, 64, "\n", true).into_bytes())
            }
            5 => ("no body", format!("{}{}", &s[..body_at], &s[end_at..]).into_bytes()),
            6 => ("only one marker", if rng.coin() { s[..end_at].into() } else { s[body_at..].into() }),
            _ => {
                // the markers share their dashes
                let o = if f == Form::Pem1 { "-----BEGIN RSA PUBLIC KEY-----END RSA PUBLIC KEY-----" } else { "-----BEGIN PUBLIC KEY-----END PUBLIC KEY-----" };
                ("overlapping markers", o.into())
            }
        }
    } else {
        let (nb, eb) = ([&[0], &n.to_bytes_be()[..]].concat(), e.to_bytes_be());
        let alg = tlv(0x30, &[0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00]);
        let wrap = |inner: &[u8], unused: u8, tag: u8| -> Vec<u8> { tlv(0x30, &[&alg[..], &tlv(tag, &[&[unused], inner].concat())].concat()) };
        let one = |tag: u8, a: &[u8], b: &[u8]| tlv(tag, &[a, b].concat());
        let eight = f == Form::Der8;
        let outer = |inner: Vec<u8>| if eight { wrap(&inner, 0, 3) } else { inner };
        match rng.below(10) {
            0 | 1 => ("cut", good[..rng.below(good.len() as u64) as usize].to_vec()),
            2 => {
                let t = *rng.pick(&[0x31u8, 0x02, 0x10, 0xb0, 0]);
                ("not a sequence", outer(one(t, &int(&nb), &int(&eb))))
            }
            3 => {
                let t = *rng.pick(&[0x03u8, 0x04, 0x30, 0x82, 0x0a]);
                ("modulus is no integer", outer(one(0x30, &tlv(t, &nb), &int(&eb))))
            }
            4 => {
                let t = *rng.pick(&[0x03u8, 0x04, 0x30, 0x82, 0x0a]);
                ("exponent is no integer", outer(one(0x30, &int(&nb), &tlv(t, &eb))))
            }
            5 => ("no exponent", outer(one(0x30, &int(&nb), &[]))),
            6 if eight => {
                let u = rng.range(1, 255) as u8;
                ("unused bits", wrap(&one(0x30, &int(&nb), &int(&eb)), u, 3))
            }
            7 if eight => {
                let t = *rng.pick(&[0x04u8, 0x30, 0x02, 0x23]);
                ("no bit string", wrap(&one(0x30, &int(&nb), &int(&eb)), 0, t))
            }
            8 if eight => ("empty bit string", tlv(0x30, &[&alg[..], &tlv(3, &[])].concat())),
            _ => {
                // an inner length that goes beyond its container
                let mut a = int(&nb);
                let by = rng.range(1, 120) as usize + eb.len() + 2;
                let len = nb.len() + by;
                a.splice(1..a.len() - nb.len(), [0x82, (len >> 8) as u8, len as u8]);
                ("length beyond the container", outer(one(0x30, &a, &int(&eb))))
            }
        }
    };
    c.note(format!("{f:?}, {how}: {}", if pemf { format!("{:?}", String::from_utf8_lossy(&data)) } else { hex(&data) }));
    c.count(how, 1);
    c.feed(&(f as u8, &data));
    match read(f, &data)? {
        Err(_) => Ok(()),
        Ok(k) => violation("malformed key accepted", format!("{f:?}, {how}: accepted as modulus {:x} exponent {:x}", k.modulus(), k.exponent())),
    }
}

/// Damaged keys: whatever comes out, nothing panics or hangs, and what was accepted can be used.
fn damaged(c: &mut Case) -> CaseResult {
    let key = (*c.rng.pick(&KEYS.iter().filter(|k| k.bits <= 1033).collect::<Vec<_>>())).clone();
    let f = *c.rng.pick(&FORMS);
    let pemf = matches!(f, Form::Pem1 | Form::Pem8);
    let rng = &mut c.rng;
    let mut data = match f {
        Form::Der1 | Form::Pem1 => pkcs1(&key.n, &key.e),
        _ => pkcs8(&key.n, &key.e),
    };
    if rng.chance(1, 20) {
        let n = rng.below(60) as usize;
        data = rng.bytes(n);
    }
    for _ in 0..rng.range(1, 3) {
        if data.is_empty() {
            break;
        }
        // mostly among the tags and lengths
        let near = data.len().min(40) as u64;
        let at = if rng.coin() { rng.below(near) } else { rng.below(data.len() as u64) } as usize;
        match rng.below(6) {
            0 => data[at] ^= 1 << rng.below(8),
            1 => data[at] = *rng.pick(&[0u8, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x87, 0x88, 0x89, 0xff, 0xfe]),
            2 => {
                data.remove(at);
            }
            3 => data.insert(at, rng.u8()),
            4 => {
                // an enormous length
                let l = *rng.pick(&[4usize, 7, 8, 9, 16, 127]);
                let v = *rng.pick(&[0u8, 0xff, 0x7f]);
                let mut x = vec![0x80 | l as u8];
                x.extend(std::iter::repeat_n(v, l));
                data.splice(at..(at + 1), x);
            }
            _ => data.truncate(at),
        }
    }
    let (parsed, text) = if pemf {
        let mut t = pem(&data, f == Form::Pem1, 64, "\n", true).into_bytes();
        if rng.chance(1, 3) {
            let at = rng.below(t.len() as u64) as usize;
            match rng.below(3) {
                0 => t[at] = rng.u8(),
                1 => {
                    t.remove(at);
                }
                _ => t.insert(at, rng.u8()),
            }
        }
        c.note(format!("{f:?} {:?}", String::from_utf8_lossy(&t)));
        (read(f, &t)?, t)
    } else {
        c.note(format!("{f:?} {}", hex(&data)));
        (read(f, &data)?, pem(&data, f == Form::Der1, 64, "\n", true).into_bytes())
    };
    c.feed(&text);
    c.count(if parsed.is_ok() { "damaged keys accepted" } else { "damaged keys refused" }, 1);
    // a server sends it, or the user configured it
    if c.rng.chance(1, 3) {
        let pinned = match parsed {
            Ok(k) if c.rng.coin() && k.num_octets() <= 200 && k.exponent().bits() <= 64 => Some(k),
            _ => None,
        };
        c.count(if pinned.is_some() { "logins with a damaged pinned key" } else { "logins with a damaged sent key" }, 1);
        let pass = "p".repeat(c.rng.range(1, 20) as usize);
        let n = nonce(&mut c.rng);
        let cfg = config(&mut c.rng, key, n.clone(), pass.clone(), String::new());
        login(c, cfg, &pass, pinned, Some(text))?;
    }
    Ok(())
}

fn config(rng: &mut Rng, key: Key, nonce: Vec<u8>, pass: String, pem: String) -> AuthCfg {
    AuthCfg {
        user: "user".into(),
        pass,
        plugin: Plugin::Sha2,
        full: true,
        force_switch: rng.chance(1, 4),
        switch_nonce: nonce.clone(),
        nonce,
        switch_nul: true,
        secure: false,
        key,
        pem,
        deny: Deny::No,
        error: ErrSpec { code: 1045, state: Some(*b"28000"), message: "denied".into() },
        ok: OkSpec { status: 2, ..Default::default() },
    }
}

struct Outcome {
    result: Result<(), mysql_connector::Error>,
    accepted: bool,
    decrypted: bool,
    wrong: Vec<String>,
    /// of its padding
    seed: Vec<u8>,
    /// the encrypted password, if one was sent
    sent: Option<Vec<u8>>,
    key_requests: u64,
}

/// Sends what `text` says in place of the key and remembers the encrypted password.
struct Recording {
    auth: AuthServer,
    last: std::sync::Arc<Mutex<Option<Vec<u8>>>>,
}

impl server::Login for Recording {
    fn packet(&mut self, io: &mut PeerIo, s: &mut Session, pkt: &[u8], first: bool) -> bool {
        let full = lock(&self.auth.log).events.iter().any(|e| e == "full");
        if full && pkt != [2] {
            *lock(&self.last) = Some(pkt.to_vec());
        }
        self.auth.packet(io, s, pkt, first)
    }
}

fn login(c: &mut Case, mut cfg: AuthCfg, pass: &str, pinned: Option<PublicKey>, text: Option<Vec<u8>>) -> Result<Outcome, Fail> {
    if let Some(t) = text {
        cfg.pem = String::from_utf8_lossy(&t).into_owned();
    }
    let greeting = Greeting { nonce: cfg.nonce.clone(), plugin: Plugin::Sha2.name().into(), plugin_nul: true, ..Default::default() };
    let (auth, log) = AuthServer::new(cfg);
    let last = std::sync::Arc::new(Mutex::new(None));
    let srv = Server::new(|sess: &mut Session, io: &mut PeerIo, cmd: Cmd| {
        if !matches!(cmd, Cmd::Quit) {
            sess.ok(io, &OkSpec { status: 2, ..Default::default() });
        }
    })
    .greeting(greeting)
    .login(Recording { auth, last: last.clone() });
    let (link, _) = srv.link(IoPlan::default());
    let mut o = opts_of::<false>(once(link.clone()));
    o.password = pass.into();
    o.auth_plugin = Some(Plugin::Sha2.option());
    o.server_key = pinned.map(std::sync::Arc::new);
    let _ = c;
    let result = drive("login", async {
        match mysql_connector::Connection::connect(std::sync::Arc::new(o)).await {
            Ok(conn) => {
                must(conn.disconnect().await, "disconnect", "disconnect")?;
                Ok(Ok(()))
            }
            Err(e) => Ok(Err(e)),
        }
    })?;
    let log = lock(&log);
    let last = lock(&last).clone();
    Ok(Outcome {
        result,
        accepted: log.accepted,
        decrypted: log.events.iter().any(|e| e == "decrypted"),
        wrong: log.wrong.clone(),
        seed: log.seed.clone(),
        sent: last,
        key_requests: log.key_requests,
    })
}

/// All seeds of paddings seen.
struct Seeds {
    seen: HashSet<Vec<u8>>,
    ones: [u64; 160],
    same: [[u64; 20]; 20],
}

static SEEDS: Mutex<Option<Seeds>> = Mutex::new(None);

/// A seed has to be fresh: never seen before, with every bit and every pair of bytes independent as far as
/// frequencies show it (the bounds are more than ten standard deviations away).
fn fresh(seed: &[u8]) -> CaseResult {
    let mut all = lock(&SEEDS);
    let all = all.get_or_insert_with(|| Seeds { seen: HashSet::new(), ones: [0; 160], same: [[0; 20]; 20] });
    ensure!(seed.len() == 20, "seed", "a seed of {} bytes", seed.len());
    ensure!(all.seen.insert(seed.to_vec()), "repeated seed", "the padding was made with a seed used before: {}", hex(seed));
    for (i, n) in all.ones.iter_mut().enumerate() {
        *n += (seed[i / 8] >> (i % 8) & 1) as u64;
    }
    for i in 0..20 {
        for j in i + 1..20 {
            all.same[i][j] += (seed[i] == seed[j]) as u64;
        }
    }
    let n = all.seen.len() as u64;
    if n >= 1000 {
        if let Some(i) = all.ones.iter().position(|x| x * 10 < n * 3 || x * 10 > n * 7) {
            return violation("biased seed", format!("bit {i} of the padding's seed was set {} times of {n}", all.ones[i]));
        }
        if let Some(i) = all.same.iter().position(|r| r.iter().any(|x| x * 10 > n)) {
            return violation("biased seed", format!("byte {i} of the padding's seed equals another one too often in {n} seeds"));
        }
    }
    Ok(())
}

/// One login: the owner of the key decrypts the password, or it does not fit and is refused.
fn encrypt_with(c: &mut Case, key: &Key, pass: String) -> CaseResult {
    let k = key.bits.div_ceil(8);
    // the password with its terminator is the message
    let fits = pass.len() + 1 + 42 <= k;
    let pin = c.rng.below(4);
    let pinned = match pin {
        0 => Some(PublicKey::new(key.n.clone(), key.e.clone())),
        1 => {
            let f = *c.rng.pick(&FORMS);
            let d = written(&mut c.rng, f, &key.n, &key.e);
            match read(f, &d)? {
                Ok(k) => Some(k),
                Err(e) => return violation("good key refused", format!("a {f:?} key of {} bits was refused: {e}", key.bits)),
            }
        }
        _ => None,
    };
    let was_pinned = pinned.is_some();
    let one = c.rng.coin();
    let der = if one { pkcs1(&key.n, &key.e) } else { pkcs8(&key.n, &key.e) };
    let text = wrapped(&mut c.rng, &der, one);
    let n = nonce(&mut c.rng);
    let cfg = config(&mut c.rng, key.clone(), n, pass.clone(), text);
    c.feed(&(key.bits, &pass));
    c.note(format!("key of {} bits, message of {} of at most {} bytes, pinned {was_pinned}", key.bits, pass.len() + 1, k as i64 - 42));
    let o = login(c, cfg, &pass, pinned, None)?;
    ensure!(!(was_pinned && o.key_requests > 0), "pinned key ignored", "the client asked for the key it was configured with");
    if !fits {
        c.count("messages too long", 1);
        ensure!(o.result.is_err(), "too long", "a message of {} bytes for a key of {k} bytes: the login succeeded", pass.len() + 1);
        ensure!(o.sent.is_none(), "too long", "a message of {} bytes was sent under a key of {k} bytes", pass.len() + 1);
        return Ok(());
    }
    let Some(sent) = o.sent else {
        return violation("not encrypted", format!("a message of {} bytes fits a key of {k} bytes and was not sent: {}", pass.len() + 1, brief(&o.result)));
    };
    ensure!(sent.len() == k, "wrong length", "the ciphertext has {} bytes, the modulus {k}", sent.len());
    ensure!(o.decrypted && o.accepted && o.result.is_ok(), "not decrypted", "the owner of the key could not read the message: {:?}, login {}", o.wrong, brief(&o.result));
    c.count("messages decrypted", 1);
    c.count(&format!("keys of {} mod 8 bits", key.bits % 8), 1);
    let zeros = sent.iter().take_while(|b| **b == 0).count();
    c.count("ciphertexts starting with 0", (zeros > 0) as u64);
    if pass.len() + 43 == k {
        c.count("messages of the greatest length", 1);
    }
    fresh(&o.seed)
}

fn text(rng: &mut Rng, len: usize) -> String {
    let mut s = String::new();
    let wide = rng.chance(1, 3);
    while s.len() < len {
        let ch = if wide && len - s.len() >= 2 { '\u{80}' } else { (b'!' + rng.below(90) as u8) as char };
        match ch {
            '\u{80}' => s.push(char::from_u32(0x80 + rng.below(0x700) as u32).unwrap_or('é')),
            x => s.push(x),
        }
    }
    s
}

/// Every key with messages of every interesting length.
fn lengths(c: &mut Case) -> CaseResult {
    let key = &KEYS[c.idx as usize % KEYS.len()];
    let max = key.bits.div_ceil(8) as i64 - 43;
    let mut all = vec![1, max - 1, max, max + 1, max + 2, max + 20, max + 42, max + 43, max + 44];
    all.push(c.rng.range(1, max.max(1) as u64) as i64);
    for l in all {
        if l >= 1 {
            let p = text(&mut c.rng, l as usize);
            encrypt_with(c, key, p)?;
        }
    }
    Ok(())
}

/// Small keys, many times: rare ciphertexts.
fn many(c: &mut Case) -> CaseResult {
    let small: Vec<&Key> = KEYS.iter().filter(|k| k.bits <= 521 && k.bits >= 345).collect();
    let key = *c.rng.pick(&small);
    for _ in 0..20 {
        let max = key.bits.div_ceil(8) as i64 - 43;
        let l = c.rng.range(1, max as u64);
        let p = text(&mut c.rng, l as usize);
        encrypt_with(c, key, p)?;
    }
    Ok(())
}

/// Keys that no message fits.
fn tiny(c: &mut Case) -> CaseResult {
    let bits = c.rng.range(1, 336) as usize;
    let n = number(&mut c.rng, bits);
    let l = c.rng.range(1, 30) as usize;
    let p = text(&mut c.rng, l);
    let key = Key { bits, n: n.clone(), e: BigUint::from(3u8), d: BigUint::from(1u8) };
    let der = if c.rng.coin() { (pkcs1(&n, &key.e), true) } else { (pkcs8(&n, &key.e), false) };
    let nn = nonce(&mut c.rng);
    let cfg = config(&mut c.rng, key.clone(), nn, p.clone(), pem(&der.0, der.1, 64, "\n", true));
    let pinned = if c.rng.coin() { Some(PublicKey::new(n, key.e)) } else { None };
    c.note(format!("key of {bits} bits, message of {} bytes", l + 1));
    c.feed(&(bits, &p));
    let o = login(c, cfg, &p, pinned, None)?;
    ensure!(o.result.is_err() && o.sent.is_none(), "too long", "a message of {} bytes for a key of {bits} bits was sent", l + 1);
    c.count("keys too small", 1);
    Ok(())
}

pub fn main() {
    Check::new("C28", "keys, encodings, damages and messages that differ")
        .assume("keys whose encoding is readable although unusual (surplus data, lengths or signs not written as DER asks) may be read or refused")
        .scale(4)
        .group("parse", 12_000, 200_000, parse)
        .group("malformed", 30_000, 800_000, malformed)
        .group("damaged", 50_000, 1_500_000, damaged)
        .group("lengths", KEYS.len() as u64 * 4, KEYS.len() as u64 * 100, lengths)
        .group("many", 1500, 30_000, many)
        .group("tiny", 3000, 50_000, tiny)
        .require("messages decrypted", 20_000)
        .require("ciphertexts starting with 0", 100)
        .require("messages of the greatest length", 100)
        .require("messages too long", 400)
        .require("damaged keys accepted", 500)
        .main()
}
