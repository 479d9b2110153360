//! A fake MySQL server: login, prepared-statement state and response encoding.
//! What it answers is up to a `Handler`.
use {
    crate::{
        stream::{Dialer, IoPlan, Link, MemOptions, Peer, PeerIo},
        wire::{self, caps, parse_login, prepare_ok, typ, ColSpec, ErrSpec, Greeting, LoginInfo, OkSpec, Param, PVal, Rd},
    },
    std::{
        collections::HashMap,
        sync::{Arc, Mutex},
    },
};

#[derive(Clone, Debug, PartialEq)]
pub enum Cmd {
    Query(Vec<u8>),
    Prepare(Vec<u8>),
    Execute { stmt: u32, flags: u8, iterations: u32, params: Result<Vec<Param>, String> },
    LongData { stmt: u32, param: u16, data: Vec<u8> },
    Close(u32),
    Quit,
    Other(Vec<u8>),
}

impl Cmd {
    pub fn sql(&self) -> String {
        match self {
            Cmd::Query(q) | Cmd::Prepare(q) => String::from_utf8_lossy(q).into_owned(),
            _ => String::new(),
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct StmtState {
    pub params: usize,
    pub sql: Vec<u8>,
    pub types: Vec<(u8, bool)>,
    pub long: HashMap<u16, Vec<u8>>,
}

#[derive(Default)]
pub struct Session {
    pub caps: u32,
    pub login: LoginInfo,
    pub stmts: HashMap<u32, StmtState>,
    pub next_stmt: u32,
    pub protocol_errors: Vec<String>,
    pub quits: u64,
    pub commands: u64,
}

impl Session {
    pub fn deprecate_eof(&self) -> bool {
        self.caps & caps::DEPRECATE_EOF != 0
    }

    pub fn ok(&self, io: &mut PeerIo, ok: &OkSpec) {
        io.send(&ok.encode(0));
    }

    pub fn err(&self, io: &mut PeerIo, e: &ErrSpec) {
        io.send(&e.encode());
    }

    pub fn header(&self, io: &mut PeerIo, cols: &[ColSpec]) {
        let mut p = Vec::new();
        wire::lenenc(&mut p, cols.len() as u64);
        io.send(&p);
        for c in cols {
            io.send(&c.encode());
        }
        if !self.deprecate_eof() {
            io.send(&OkSpec { status: 2, ..Default::default() }.old_eof());
        }
    }

    pub fn end(&self, io: &mut PeerIo, end: &OkSpec) {
        if self.deprecate_eof() {
            io.send(&end.encode(0xFE));
        } else {
            io.send(&end.old_eof());
        }
    }

    pub fn result(&self, io: &mut PeerIo, cols: &[ColSpec], rows: &[Vec<u8>], end: &OkSpec) {
        self.header(io, cols);
        for r in rows {
            io.send(r);
        }
        self.end(io, end);
    }

    /// Registers a statement and answers a prepare; returns its id.
    pub fn prepared(&mut self, io: &mut PeerIo, sql: &[u8], params: usize, cols: &[ColSpec]) -> u32 {
        self.next_stmt += 1;
        let id = self.next_stmt;
        self.prepared_as(io, id, sql, params, cols);
        id
    }

    pub fn prepared_as(&mut self, io: &mut PeerIo, id: u32, sql: &[u8], params: usize, cols: &[ColSpec]) {
        self.stmts.insert(id, StmtState { params, sql: sql.to_vec(), ..Default::default() });
        io.send(&prepare_ok(id, cols.len() as u16, params as u16, 0));
        let eof = OkSpec { status: 2, ..Default::default() }.old_eof();
        for _ in 0..params {
            io.send(&ColSpec::new("?", typ::VARSTRING, 0).encode());
        }
        if params > 0 && !self.deprecate_eof() {
            io.send(&eof);
        }
        for c in cols {
            io.send(&c.encode());
        }
        if !cols.is_empty() && !self.deprecate_eof() {
            io.send(&eof);
        }
    }

    fn parse_execute(&mut self, body: &[u8]) -> Cmd {
        let mut r = Rd { b: body };
        let (Some(stmt), Some(flags), Some(iterations)) = (r.u32(), r.u8(), r.u32()) else {
            return Cmd::Other(body.to_vec());
        };
        let params = self.parse_params(stmt, &mut r);
        if let Some(s) = self.stmts.get_mut(&stmt) {
            s.long.clear();
        }
        Cmd::Execute { stmt, flags, iterations, params }
    }

    fn parse_params(&mut self, stmt: u32, r: &mut Rd<'_>) -> Result<Vec<Param>, String> {
        let s = self.stmts.get_mut(&stmt).ok_or("unknown statement id")?;
        if s.params == 0 {
            return if r.b.is_empty() { Ok(vec![]) } else { Err(format!("{} stray bytes", r.b.len())) };
        }
        let bitmap = r.take((s.params + 7) / 8).ok_or("NULL bitmap is cut off")?.to_vec();
        match r.u8().ok_or("no new-params flag")? {
            0 => {
                if s.types.len() != s.params {
                    return Err("parameters executed without types".into());
                }
            }
            1 => {
                s.types.clear();
                for _ in 0..s.params {
                    let t = r.u8().ok_or("types are cut off")?;
                    let f = r.u8().ok_or("types are cut off")?;
                    if f & 0x7f != 0 {
                        return Err(format!("parameter flags {f:#x}"));
                    }
                    s.types.push((t, f & 0x80 != 0));
                }
            }
            x => return Err(format!("new-params flag {x}")),
        }
        let mut out = Vec::new();
        for i in 0..s.params {
            let (t, unsigned) = s.types[i];
            let null = bitmap[i / 8] >> (i % 8) & 1 == 1;
            let (val, long) = match s.long.remove(&(i as u16)) {
                Some(d) => (PVal::Bytes(d), true),
                None if null => (PVal::Null, false),
                None => (wire::decode_bin(r, t, unsigned)?, false),
            };
            out.push(Param { typ: t, unsigned, val, long });
        }
        for i in s.params..bitmap.len() * 8 {
            if bitmap[i / 8] >> (i % 8) & 1 == 1 {
                return Err("NULL bit set past the last parameter".into());
            }
        }
        if !r.b.is_empty() {
            return Err(format!("{} stray bytes after the parameters", r.b.len()));
        }
        Ok(out)
    }

    pub fn parse(&mut self, pkt: &[u8]) -> Cmd {
        self.commands += 1;
        match pkt.first() {
            Some(0x01) if pkt.len() == 1 => {
                self.quits += 1;
                Cmd::Quit
            }
            Some(0x03) => Cmd::Query(pkt[1..].to_vec()),
            Some(0x16) => Cmd::Prepare(pkt[1..].to_vec()),
            Some(0x17) => self.parse_execute(&pkt[1..]),
            Some(0x18) if pkt.len() >= 7 => {
                let stmt = u32::from_le_bytes([pkt[1], pkt[2], pkt[3], pkt[4]]);
                let param = u16::from_le_bytes([pkt[5], pkt[6]]);
                if let Some(s) = self.stmts.get_mut(&stmt) {
                    s.long.entry(param).or_default().extend_from_slice(&pkt[7..]);
                }
                Cmd::LongData { stmt, param, data: pkt[7..].to_vec() }
            }
            Some(0x19) if pkt.len() == 5 => {
                let stmt = u32::from_le_bytes([pkt[1], pkt[2], pkt[3], pkt[4]]);
                self.stmts.remove(&stmt);
                Cmd::Close(stmt)
            }
            _ => Cmd::Other(pkt.to_vec()),
        }
    }
}

pub trait Handler: Send {
    fn cmd(&mut self, s: &mut Session, io: &mut PeerIo, cmd: Cmd);
}

impl<F: FnMut(&mut Session, &mut PeerIo, Cmd) + Send> Handler for F {
    fn cmd(&mut self, s: &mut Session, io: &mut PeerIo, cmd: Cmd) {
        self(s, io, cmd)
    }
}

/// What the server does with the login packet.
pub trait Login: Send {
    /// Called with every login-phase packet. Returns true when the login is complete
    /// (and the final OK was queued).
    fn packet(&mut self, io: &mut PeerIo, s: &mut Session, pkt: &[u8], first: bool) -> bool;
}

/// Accepts everyone.
pub struct Trust;

impl Login for Trust {
    fn packet(&mut self, io: &mut PeerIo, s: &mut Session, pkt: &[u8], _first: bool) -> bool {
        match parse_login(pkt) {
            Some(l) => {
                s.login = l;
                io.send(&OkSpec { status: 2, ..Default::default() }.encode(0));
                true
            }
            None => {
                s.protocol_errors.push("unreadable login packet".into());
                io.send(&ErrSpec::new(1043, "08S01", "Bad handshake").encode());
                false
            }
        }
    }
}

pub struct Server {
    pub greeting: Greeting,
    pub login: Box<dyn Login>,
    pub handler: Box<dyn Handler>,
    pub session: Arc<Mutex<Session>>,
    pub max_allowed_packet: u64,
    first: bool,
    logged_in: bool,
}

impl Server {
    pub fn new(handler: impl Handler + 'static) -> Self {
        Self {
            greeting: Greeting::default(),
            login: Box::new(Trust),
            handler: Box::new(handler),
            session: Default::default(),
            max_allowed_packet: 64 << 20,
            first: true,
            logged_in: false,
        }
    }

    pub fn greeting(mut self, g: Greeting) -> Self {
        self.greeting = g;
        self
    }

    pub fn login(mut self, l: impl Login + 'static) -> Self {
        self.login = Box::new(l);
        self
    }

    pub fn link(self, plan: IoPlan) -> (Link, Arc<Mutex<Session>>) {
        let s = self.session.clone();
        (Link::new(Box::new(self), plan), s)
    }
}

impl Peer for Server {
    fn start(&mut self, io: &mut PeerIo) {
        io.send(&self.greeting.encode());
    }

    fn packet(&mut self, io: &mut PeerIo, pkt: Vec<u8>) {
        let mut s = self.session.lock().unwrap_or_else(|e| e.into_inner());
        if !self.logged_in {
            let first = std::mem::replace(&mut self.first, false);
            if self.login.packet(io, &mut s, &pkt, first) {
                self.logged_in = true;
                io.login = false;
                s.caps = s.login.caps & self.greeting.caps;
            }
            return;
        }
        let cmd = s.parse(&pkt);
        match &cmd {
            Cmd::Quit => {
                io.closed = true;
                io.item(crate::stream::Item::Eof);
            }
            Cmd::Query(q) if q.as_slice() == b"select @@max_allowed_packet" => {
                let mut c = ColSpec::new("@@max_allowed_packet", typ::LONGLONG, wire::UNSIGNED);
                c.org_name.clear();
                let row = wire::text_row(&[Some(self.max_allowed_packet.to_string().into_bytes())]);
                s.result(io, &[c], &[row], &OkSpec { status: 2, ..Default::default() });
                return;
            }
            _ => {}
        }
        self.handler.cmd(&mut s, io, cmd);
    }
}

/// A single connection that is dialed once (a second dial gets the same, used link).
pub fn once(link: Link) -> MemOptions {
    MemOptions { dialer: Some(Arc::new(move || link.clone())) }
}

pub fn dialer(d: impl Dialer + 'static) -> MemOptions {
    MemOptions { dialer: Some(Arc::new(d)) }
}

pub fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
