//! Small helpers shared by the checks.
use {
    crate::{
        runner::{Fail, Ran},
        server::{once, Handler, Server, Session},
        stream::{IoPlan, Link, MemOptions, MemStream},
        wire::{ErrSpec, OkSpec},
    },
    mysql_connector::{
        error::ProtocolError,
        types::{AuthPlugin, Value},
        Connection, ConnectionOptions, Error,
    },
    std::{
        io,
        sync::{Arc, Mutex},
        time::Duration,
    },
};

pub type Mem = MemStream<false>;
pub type Opts = ConnectionOptions<Mem>;
pub type Row = Vec<Value>;

pub fn opts_of<const S: bool>(conn: MemOptions) -> ConnectionOptions<MemStream<S>> {
    ConnectionOptions {
        user: "user".into(),
        password: String::new(),
        db_name: None,
        connection: conn,
        max_allowed_packet: Some(64 << 20),
        timeout: Duration::from_secs(10),
        auth_plugin: Some(AuthPlugin::Native),
        ..Default::default()
    }
}

pub fn opts(conn: MemOptions) -> Opts {
    opts_of(conn)
}

pub fn server(h: impl Handler + 'static, plan: IoPlan) -> (Link, Arc<Mutex<Session>>) {
    Server::new(h).link(plan)
}

/// Connects over `link` with default options.
pub async fn connect(link: &Link) -> Result<Connection, Error> {
    Connection::connect(Arc::new(opts(once(link.clone())))).await
}

/// Connecting to a healthy server over a conforming transport has to work.
pub async fn must_connect(link: &Link) -> Result<Connection, Fail> {
    connect(link).await.map_err(|e| Fail::Violation {
        sig: "connect failed".into(),
        msg: format!("connecting to a healthy server failed: {}", crate::brief(e)),
    })
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Server { code: u16, state: Option<String>, message: String },
    Io(io::ErrorKind),
    OutOfSync,
    Runtime,
    /// any other protocol error
    Data,
}

fn field<'a>(s: &'a str, name: &str) -> Option<&'a str> {
    let p = s.find(&format!("{name}: "))?;
    Some(&s[p + name.len() + 2..])
}

/// Reads a Rust debug string literal.
fn unquote(s: &str) -> Option<String> {
    let mut it = s.strip_prefix('"')?.chars();
    let mut out = String::new();
    loop {
        match it.next()? {
            '"' => return Some(out),
            '\\' => match it.next()? {
                'n' => out.push('\n'),
                'r' => out.push('\r'),
                't' => out.push('\t'),
                '0' => out.push('\0'),
                'u' => {
                    it.next();
                    let mut n = 0;
                    loop {
                        match it.next()? {
                            '}' => break,
                            c => n = n * 16 + c.to_digit(16)?,
                        }
                    }
                    out.push(char::from_u32(n)?);
                }
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
}

/// The types of server errors cannot be named outside the crate, but they can be printed.
pub fn kind(e: &Error) -> Kind {
    match e {
        Error::Server(p) => {
            let d = format!("{p:?}");
            let code = field(&d, "code").map(|s| s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>());
            match code.and_then(|c| c.parse().ok()) {
                Some(code) => Kind::Server {
                    code,
                    state: field(&d, "state").and_then(unquote),
                    message: field(&d, "message").and_then(unquote).unwrap_or(d),
                },
                None => Kind::Data,
            }
        }
        Error::Protocol(ProtocolError::Io(e)) => Kind::Io(e.kind()),
        Error::Protocol(ProtocolError::OutOfSync) => Kind::OutOfSync,
        Error::Protocol(_) => Kind::Data,
        Error::Runtime(_) => Kind::Runtime,
    }
}

pub fn is_server(e: &Error, want: &ErrSpec) -> bool {
    kind(e)
        == Kind::Server {
            code: want.code,
            state: want.state.map(|s| String::from_utf8_lossy(&s).into_owned()),
            message: want.message.clone(),
        }
}

/// The status bits that mean something.
pub const NAMED: u16 = !4;

/// What a summary says, in comparable form.
#[derive(Clone, Debug, PartialEq)]
pub struct Summary {
    pub affected: u64,
    pub last_id: u64,
    pub status: u16,
    pub warnings: u16,
    pub message: Vec<u8>,
}

#[macro_export]
macro_rules! summary {
    ($ok:expr) => {{
        let ok = &$ok;
        $crate::kit::Summary {
            affected: ok.affected_rows(),
            last_id: ok.last_insert_id(),
            status: ok.status().bits() & $crate::kit::NAMED,
            warnings: ok.warnings(),
            message: ok.message().map(|s| s.as_bytes().to_vec()).unwrap_or_default(),
        }
    }};
}

impl Summary {
    pub fn of(o: &OkSpec) -> Self {
        Self {
            affected: o.affected,
            last_id: o.last_id,
            status: o.status & NAMED,
            warnings: o.warnings,
            message: o.message.clone(),
        }
    }

    /// The terminator of rows has no counts.
    pub fn of_end(o: &OkSpec, deprecate_eof: bool) -> Self {
        Self {
            affected: 0,
            last_id: 0,
            status: o.status & NAMED,
            warnings: o.warnings,
            message: if deprecate_eof { o.message.clone() } else { vec![] },
        }
    }
}

/// Values are equal bit for bit (floats by their bits).
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Float(x), Value::Float(y)) => x.to_bits() == y.to_bits(),
        (Value::Double(x), Value::Double(y)) => x.to_bits() == y.to_bits(),
        _ => a == b,
    }
}

pub fn same_row(a: &[Value], b: &[Value]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}

pub fn must<T>(r: Result<T, Error>, sig: &str, what: &str) -> Result<T, Fail> {
    r.map_err(|e| Fail::Violation { sig: sig.into(), msg: format!("{what}: {}", crate::brief(e)) })
}

/// Runs a case body on the paused clock.
pub fn drive<T>(what: &str, f: impl std::future::Future<Output = Result<T, Fail>>) -> Result<T, Fail> {
    match crate::runner::run(f) {
        Ran::Done(x) => x,
        other => other.done(what)?,
    }
}

/// No framing error was seen and the server is left with no half packet.
pub fn frames_ok(link: &Link) -> Result<(), Fail> {
    let g = link.lock();
    if let Some(e) = g.io.frame_errors.first() {
        return crate::violation("framing", e.clone());
    }
    if g.leftover() != 0 {
        return crate::violation("framing", format!("the server is left waiting for the rest of a packet ({} bytes)", g.leftover()));
    }
    Ok(())
}
