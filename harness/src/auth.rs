//! The server's half of every authentication method, written from the documentation of the
//! methods: checks what the client sent against the password and the challenge.
use {
    crate::{
        rng::Rng,
        server::{Login, Session},
        stream::PeerIo,
        wire::{parse_login, ErrSpec, OkSpec},
    },
    num::BigUint,
    sha1::{Digest, Sha1},
    sha2::Sha256,
    std::sync::{Arc, Mutex},
};

#[derive(Clone, Debug)]
pub struct Key {
    pub bits: usize,
    pub n: BigUint,
    pub e: BigUint,
    pub d: BigUint,
}

lazy_static::lazy_static! {
    /// RSA keys of many lengths (337 to 4096 bits).
    pub static ref KEYS: Vec<Key> = include_str!("keys.txt")
        .lines()
        .map(|l| {
            let f: Vec<&str> = l.split(' ').collect();
            let num = |s: &str| BigUint::parse_bytes(s.as_bytes(), 16).unwrap_or_default();
            Key { bits: f[0].parse().unwrap_or(0), n: num(f[1]), e: num(f[2]), d: num(f[3]) }
        })
        .collect();
}

pub fn key_bits(bits: usize) -> &'static Key {
    KEYS.iter().find(|k| k.bits == bits).unwrap_or(&KEYS[0])
}

fn sha1(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha1::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}

fn sha256(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}

fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

/// What a server accepts as proof of the password.
pub fn proof(plugin: Plugin, nonce: &[u8], pass: &[u8]) -> Vec<u8> {
    if pass.is_empty() && plugin != Plugin::Clear {
        return vec![];
    }
    match plugin {
        Plugin::Native => {
            let stored = sha1(&[&sha1(&[pass])]);
            xor(&sha1(&[pass]), &sha1(&[nonce, &stored]))
        }
        Plugin::Sha2 => {
            let stored = sha256(&[&sha256(&[pass])]);
            xor(&sha256(&[pass]), &sha256(&[&stored, nonce]))
        }
        Plugin::Clear => pass.to_vec(),
    }
}

/// Servers verify with the stored double hash only.
pub fn verify(plugin: Plugin, nonce: &[u8], pass: &[u8], got: &[u8]) -> bool {
    match plugin {
        Plugin::Clear => got == pass || (got.len() == pass.len() + 1 && got.ends_with(&[0]) && got.starts_with(pass)),
        Plugin::Native => {
            if pass.is_empty() {
                return got.is_empty();
            }
            let stored = sha1(&[&sha1(&[pass])]);
            got.len() == 20 && sha1(&[&xor(got, &sha1(&[nonce, &stored]))]) == stored
        }
        Plugin::Sha2 => {
            if pass.is_empty() {
                return got.is_empty() || got == [0];
            }
            let stored = sha256(&[&sha256(&[pass])]);
            got.len() == 32 && sha256(&[&xor(got, &sha256(&[&stored, nonce]))]) == stored
        }
    }
}

fn mgf1(seed: &[u8], len: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0u32;
    while out.len() < len {
        out.extend(sha1(&[seed, &i.to_be_bytes()]));
        i += 1;
    }
    out.truncate(len);
    out
}

pub fn oaep_decrypt(key: &Key, cipher: &[u8]) -> Result<Vec<u8>, String> {
    oaep_open(key, cipher).map(|x| x.1)
}

/// RSAES-OAEP with SHA-1 (RFC 8017, 7.1.2): the seed of the padding and the message.
pub fn oaep_open(key: &Key, cipher: &[u8]) -> Result<(Vec<u8>, Vec<u8>), String> {
    let k = key.bits.div_ceil(8);
    if cipher.len() != k {
        return Err(format!("ciphertext of {} bytes for a modulus of {k} bytes", cipher.len()));
    }
    let c = BigUint::from_bytes_be(cipher);
    if c >= key.n {
        return Err("ciphertext is not smaller than the modulus".into());
    }
    let m = c.modpow(&key.d, &key.n).to_bytes_be();
    let mut em = vec![0u8; k.saturating_sub(m.len())];
    em.extend(m);
    if em[0] != 0 {
        return Err("the padded message does not start with 0".into());
    }
    let (seed, db) = em[1..].split_at(20);
    let seed = xor(seed, &mgf1(db, 20));
    let db = xor(db, &mgf1(&seed, db.len()));
    if db[..20] != sha1(&[])[..] {
        return Err("wrong label hash".into());
    }
    match db[20..].iter().position(|b| *b != 0) {
        Some(p) if db[20 + p] == 1 => Ok((seed, db[20 + p + 1..].to_vec())),
        _ => Err("no separator in the padded message".into()),
    }
}

fn der_len(out: &mut Vec<u8>, n: usize) {
    if n < 128 {
        out.push(n as u8);
    } else {
        let b = n.to_be_bytes();
        let s = b.iter().position(|x| *x != 0).unwrap_or(7);
        out.push(0x80 | (8 - s) as u8);
        out.extend_from_slice(&b[s..]);
    }
}

fn der(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    der_len(&mut o, body.len());
    o.extend_from_slice(body);
    o
}

fn der_uint(n: &BigUint) -> Vec<u8> {
    let mut b = n.to_bytes_be();
    if b[0] & 0x80 != 0 {
        b.insert(0, 0);
    }
    der(0x02, &b)
}

pub fn pkcs1(n: &BigUint, e: &BigUint) -> Vec<u8> {
    let mut b = der_uint(n);
    b.extend(der_uint(e));
    der(0x30, &b)
}

pub fn pkcs8(n: &BigUint, e: &BigUint) -> Vec<u8> {
    let alg = der(0x30, &[0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01, 0x05, 0x00]);
    let mut bits = vec![0];
    bits.extend(pkcs1(n, e));
    let mut b = alg;
    b.extend(der(0x03, &bits));
    der(0x30, &b)
}

pub fn base64(data: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                o.push(T[(v >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                o.push('=');
            }
        }
    }
    o
}

/// PEM with the given line length and line ending.
pub fn pem(der: &[u8], pkcs1: bool, width: usize, eol: &str, trailing: bool) -> String {
    let what = if pkcs1 { "RSA PUBLIC KEY" } else { "PUBLIC KEY" };
    let mut o = format!("-----BEGIN {what}-----{eol}");
    let b = base64(der);
    for l in b.as_bytes().chunks(width.max(1)) {
        o += std::str::from_utf8(l).unwrap_or("");
        o += eol;
    }
    o += &format!("-----END {what}-----");
    if trailing {
        o += eol;
    }
    o
}

pub fn random_pem(rng: &mut Rng, k: &Key) -> String {
    let one = rng.coin();
    let d = if one { pkcs1(&k.n, &k.e) } else { pkcs8(&k.n, &k.e) };
    let width = *rng.pick(&[64usize, 64, 76, 60, 1, 10_000, 4]);
    let eol = *rng.pick(&["\n", "\r\n", "\n", " \n", "\t\n", "\n\n"]);
    pem(&d, one, width, eol, rng.coin())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Plugin {
    Native,
    Sha2,
    Clear,
}

impl Plugin {
    pub const ALL: [Plugin; 3] = [Plugin::Native, Plugin::Sha2, Plugin::Clear];

    pub fn name(self) -> &'static str {
        match self {
            Plugin::Native => "mysql_native_password",
            Plugin::Sha2 => "caching_sha2_password",
            Plugin::Clear => "mysql_clear_password",
        }
    }

    pub fn of(name: &[u8]) -> Option<Self> {
        Self::ALL.into_iter().find(|p| p.name().as_bytes() == name)
    }

    pub fn option(self) -> mysql_connector::types::AuthPlugin {
        use mysql_connector::types::AuthPlugin as A;
        match self {
            Plugin::Native => A::Native,
            Plugin::Sha2 => A::Sha2,
            Plugin::Clear => A::Clear,
        }
    }
}

/// Where the server refuses.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Deny {
    No,
    /// instead of looking at the login packet
    AtLogin,
    /// after the answer to the switch
    AfterSwitch,
    /// instead of the fast/full decision
    AtMore,
    /// instead of OK after "fast authentication succeeded"
    AfterFast,
    /// instead of the public key
    AtKey,
    /// at the very end, the proof was right
    AtEnd,
}

#[derive(Clone, Debug)]
pub struct AuthCfg {
    /// the account
    pub user: String,
    pub pass: String,
    pub plugin: Plugin,
    /// full authentication for SHA-2 (the password is not cached)
    pub full: bool,
    /// ask for a switch even if the client used the right plugin
    pub force_switch: bool,
    pub nonce: Vec<u8>,
    pub switch_nonce: Vec<u8>,
    /// terminator after the switch challenge
    pub switch_nul: bool,
    pub secure: bool,
    pub key: Key,
    pub pem: String,
    pub deny: Deny,
    pub error: ErrSpec,
    pub ok: OkSpec,
}

#[derive(Default, Debug)]
pub struct AuthLog {
    pub events: Vec<String>,
    /// the final OK was sent
    pub accepted: bool,
    /// a refusal was sent
    pub refused: Option<ErrSpec>,
    /// what was wrong with the client's proof
    pub wrong: Vec<String>,
    pub key_requests: u64,
    /// of the padding of the encrypted password
    pub seed: Vec<u8>,
    pub switched: bool,
    pub first: Vec<u8>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Login,
    Switch,
    Full,
    Done,
}

pub struct AuthServer {
    pub cfg: AuthCfg,
    pub log: Arc<Mutex<AuthLog>>,
    st: St,
    /// the challenge in force
    nonce: Vec<u8>,
}

impl AuthServer {
    pub fn new(cfg: AuthCfg) -> (Self, Arc<Mutex<AuthLog>>) {
        let log: Arc<Mutex<AuthLog>> = Default::default();
        (Self { nonce: cfg.nonce.clone(), cfg, log: log.clone(), st: St::Login }, log)
    }

    fn refuse(&mut self, io: &mut PeerIo, log: &mut AuthLog) -> bool {
        log.events.push("refuse".into());
        log.refused = Some(self.cfg.error.clone());
        io.send(&self.cfg.error.encode());
        self.st = St::Done;
        false
    }

    fn accept(&mut self, io: &mut PeerIo, log: &mut AuthLog) -> bool {
        if self.cfg.deny == Deny::AtEnd {
            return self.refuse(io, log);
        }
        log.events.push("accept".into());
        log.accepted = true;
        io.send(&self.cfg.ok.encode(0));
        self.st = St::Done;
        true
    }

    fn check(&mut self, io: &mut PeerIo, log: &mut AuthLog, got: &[u8]) -> bool {
        let p = self.cfg.plugin;
        if p == Plugin::Sha2 && !self.cfg.pass.is_empty() {
            if self.cfg.deny == Deny::AtMore {
                return self.refuse(io, log);
            }
            // a server that does not have the password cached looks only at the full proof,
            // but one that has would refuse this: the scramble has to be right in any case
            if !verify(p, &self.nonce, self.cfg.pass.as_bytes(), got) {
                log.wrong.push(format!("wrong {} scramble ({} bytes)", p.name(), got.len()));
                return self.refuse(io, log);
            }
            if self.cfg.full {
                log.events.push("full".into());
                io.send(&[1, 4]);
                self.st = St::Full;
                return false;
            }
            log.events.push("fast".into());
            io.send(&[1, 3]);
            if self.cfg.deny == Deny::AfterFast {
                return self.refuse(io, log);
            }
            return self.accept(io, log);
        }
        if !verify(p, &self.nonce, self.cfg.pass.as_bytes(), got) {
            log.wrong.push(format!("wrong {} proof ({} bytes)", p.name(), got.len()));
            return self.refuse(io, log);
        }
        self.accept(io, log)
    }
}

impl Login for AuthServer {
    fn packet(&mut self, io: &mut PeerIo, s: &mut Session, pkt: &[u8], _first: bool) -> bool {
        let log = self.log.clone();
        let log = &mut *crate::lock(&log);
        match self.st {
            St::Login => {
                log.first = pkt.to_vec();
                let Some(l) = parse_login(pkt) else {
                    log.wrong.push("unreadable login packet".into());
                    return self.refuse(io, log);
                };
                s.login = l.clone();
                if self.cfg.deny == Deny::AtLogin {
                    return self.refuse(io, log);
                }
                if l.user != self.cfg.user.as_bytes() {
                    log.wrong.push("wrong user".into());
                    return self.refuse(io, log);
                }
                let named = l.plugin.as_deref().and_then(Plugin::of).unwrap_or(Plugin::Native);
                log.events.push(format!("login with {}", named.name()));
                if named != self.cfg.plugin || self.cfg.force_switch {
                    log.events.push(format!("switch to {}", self.cfg.plugin.name()));
                    log.switched = true;
                    let mut p = vec![0xFE];
                    p.extend_from_slice(self.cfg.plugin.name().as_bytes());
                    p.push(0);
                    p.extend_from_slice(&self.cfg.switch_nonce);
                    if self.cfg.switch_nul {
                        p.push(0);
                    }
                    io.send(&p);
                    self.nonce = self.cfg.switch_nonce.clone();
                    self.st = St::Switch;
                    return false;
                }
                self.check(io, log, &l.auth)
            }
            St::Switch => {
                if self.cfg.deny == Deny::AfterSwitch {
                    return self.refuse(io, log);
                }
                self.check(io, log, pkt)
            }
            St::Full => {
                let want = {
                    let mut w = self.cfg.pass.as_bytes().to_vec();
                    w.push(0);
                    w
                };
                if self.cfg.secure {
                    if pkt != want {
                        log.wrong.push("wrong password in the full authentication".into());
                        return self.refuse(io, log);
                    }
                    return self.accept(io, log);
                }
                if pkt == [2] {
                    log.key_requests += 1;
                    log.events.push("key request".into());
                    if self.cfg.deny == Deny::AtKey {
                        return self.refuse(io, log);
                    }
                    let mut p = vec![1];
                    p.extend_from_slice(self.cfg.pem.as_bytes());
                    io.send(&p);
                    return false;
                }
                match oaep_open(&self.cfg.key, pkt) {
                    Ok((seed, m)) => {
                        log.seed = seed;
                        let clear: Vec<u8> = m.iter().enumerate().map(|(i, b)| b ^ self.nonce[i % self.nonce.len()]).collect();
                        if clear != want {
                            log.wrong.push("the decrypted password is wrong".into());
                            return self.refuse(io, log);
                        }
                        log.events.push("decrypted".into());
                        self.accept(io, log)
                    }
                    Err(e) => {
                        log.wrong.push(e);
                        self.refuse(io, log)
                    }
                }
            }
            St::Done => {
                log.wrong.push("packet after the end of the login".into());
                false
            }
        }
    }
}

pub fn nonce(rng: &mut Rng) -> Vec<u8> {
    // servers avoid NUL and '$' in challenges
    (0..20)
        .map(|_| loop {
            let b = (rng.u8() & 0x7f).max(1);
            if b != b'$' {
                break b;
            }
        })
        .collect()
}

pub fn password(rng: &mut Rng) -> String {
    match rng.below(10) {
        0 | 1 => String::new(),
        2 => rng.ascii(1),
        3 => {
            let n = *rng.pick(&[19usize, 20, 21, 63, 64, 65, 85, 86]);
            rng.ascii(n)
        }
        4 => "pässwörd€😀".into(),
        // a NUL is a character like any other
        5 => {
            let (m, n) = (rng.usize(8), rng.usize(12));
            format!("{}\0{}", rng.ascii(m), rng.ascii(n))
        }
        _ => {
            let n = rng.range(4, 40) as usize;
            rng.ascii(n)
        }
    }
}
