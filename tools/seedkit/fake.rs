//! A minimal MySQL server over an in-memory pipe, enough to show one behaviour.
#![allow(dead_code)]

use {
    mysql_connector::{Connection, ConnectionOptions, Stream},
    std::{
        fmt,
        future::Future,
        io,
        pin::Pin,
        sync::{Arc, Mutex},
        task::{Context, Poll},
    },
    tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, DuplexStream, ReadBuf},
};

#[derive(Debug)]
pub struct Pipe(pub DuplexStream);

impl AsyncRead for Pipe {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_read(cx, buf)
    }
}

impl AsyncWrite for Pipe {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_shutdown(cx)
    }
}

type Dial = Arc<dyn Fn() -> io::Result<DuplexStream> + Send + Sync>;

/// How to get a new pipe to the server
#[derive(Default, Clone)]
pub struct Target(pub Option<Dial>);

impl fmt::Debug for Target {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Target")
    }
}

impl Stream for Pipe {
    const SECURE: bool = false;
    type Options = Target;

    async fn connect(data: &Target) -> io::Result<Self> {
        match &data.0 {
            Some(dial) => dial().map(Pipe),
            None => Err(io::ErrorKind::ConnectionRefused.into()),
        }
    }
}

/// Every new connection is served by a task running `serve`.
pub fn target<F, Fut>(serve: F) -> Target
where
    F: Fn(Srv) -> Fut + Send + Sync + 'static,
    Fut: Future<Output = ()> + Send + 'static,
{
    Target(Some(Arc::new(move || {
        let (a, b) = tokio::io::duplex(1 << 16);
        tokio::spawn(serve(Srv { io: b, seq: 0 }));
        Ok(a)
    })))
}

/// A pipe whose other end is returned
pub fn pair() -> (Target, Srv) {
    let (a, b) = tokio::io::duplex(1 << 16);
    let slot = Mutex::new(Some(a));
    let dial: Dial = Arc::new(move || slot.lock().unwrap().take().ok_or_else(|| io::ErrorKind::ConnectionRefused.into()));
    (Target(Some(dial)), Srv { io: b, seq: 0 })
}

pub fn options(connection: Target) -> ConnectionOptions<Pipe> {
    ConnectionOptions {
        user: "user".into(),
        password: "".into(),
        connection,
        max_allowed_packet: Some(1 << 24),
        auth_plugin: None,
        ..Default::default()
    }
}

pub struct Srv {
    pub io: DuplexStream,
    pub seq: u8,
}

pub const NONCE: &[u8; 20] = b"abcdefghijklmnopqrst";
pub const CAPS: u32 = 0x1 | 0x2 | 0x4 | 0x8 | 0x200 | 0x2000 | 0x8000 | 0x40000 | 0x80000 | 0x200000;
pub const DEPRECATE_EOF: u32 = 0x1000000;

impl Srv {
    /// A whole packet, or `None` at the end of the stream
    pub async fn read(&mut self) -> Option<Vec<u8>> {
        let mut out = Vec::new();
        loop {
            let mut head = [0; 4];
            self.io.read_exact(&mut head).await.ok()?;
            let len = u32::from_le_bytes([head[0], head[1], head[2], 0]) as usize;
            self.seq = head[3].wrapping_add(1);
            let start = out.len();
            out.resize(start + len, 0);
            self.io.read_exact(&mut out[start..]).await.ok()?;
            if len < 0xFFFFFF {
                return Some(out);
            }
        }
    }

    pub async fn write(&mut self, mut data: &[u8]) {
        loop {
            let n = data.len().min(0xFFFFFF);
            let mut head = (n as u32).to_le_bytes();
            head[3] = self.seq;
            self.seq = self.seq.wrapping_add(1);
            let _ = self.io.write_all(&head).await;
            let _ = self.io.write_all(&data[..n]).await;
            data = &data[n..];
            if n < 0xFFFFFF {
                break;
            }
        }
        let _ = self.io.flush().await;
    }

    pub async fn greet(&mut self, caps: u32, plugin: &str) {
        self.seq = 0;
        let mut p = vec![10];
        p.extend(b"8.0.30\0");
        p.extend(7u32.to_le_bytes());
        p.extend(&NONCE[..8]);
        p.push(0);
        p.extend((caps as u16).to_le_bytes());
        p.push(45);
        p.extend(2u16.to_le_bytes());
        p.extend(((caps >> 16) as u16).to_le_bytes());
        p.push(21);
        p.extend([0; 10]);
        p.extend(&NONCE[8..]);
        p.push(0);
        p.extend(plugin.as_bytes());
        p.push(0);
        self.write(&p).await;
    }

    /// Greeting and login without password checks
    pub async fn login(&mut self, caps: u32) {
        self.greet(caps, "mysql_native_password").await;
        self.read().await;
        self.ok(0, 0, 2, 0).await;
    }

    pub async fn ok(&mut self, affected: u64, id: u64, status: u16, warnings: u16) {
        let mut p = vec![0];
        p.extend(lenenc(affected));
        p.extend(lenenc(id));
        p.extend(status.to_le_bytes());
        p.extend(warnings.to_le_bytes());
        self.write(&p).await;
    }

    pub async fn err(&mut self, code: u16, msg: &str) {
        let mut p = vec![0xFF];
        p.extend(code.to_le_bytes());
        p.extend(b"#HY000");
        p.extend(msg.as_bytes());
        self.write(&p).await;
    }

    /// An EOF packet of the old or of the new kind
    pub async fn eof(&mut self, caps: u32, status: u16, warnings: u16) {
        let mut p = vec![0xFE];
        if caps & DEPRECATE_EOF == 0 {
            p.extend(warnings.to_le_bytes());
            p.extend(status.to_le_bytes());
        } else {
            p.extend([0, 0]);
            p.extend(status.to_le_bytes());
            p.extend(warnings.to_le_bytes());
        }
        self.write(&p).await;
    }

    pub async fn column(&mut self, c: &Col) {
        let mut p = Vec::new();
        for part in ["def", "schema", c.table, c.org_table, c.name, c.org_name] {
            p.extend(lenenc_str(part.as_bytes()));
        }
        p.push(0x0C);
        p.extend(45u16.to_le_bytes());
        p.extend(1024u32.to_le_bytes());
        p.push(c.typ);
        p.extend(c.flags.to_le_bytes());
        p.push(0);
        p.extend([0, 0]);
        self.write(&p).await;
    }

    /// Column count, columns and rows (encoded by the caller), and the end
    pub async fn result(&mut self, caps: u32, cols: &[Col], rows: &[Vec<u8>], status: u16) {
        self.write(&lenenc(cols.len() as u64)).await;
        for c in cols {
            self.column(c).await;
        }
        if caps & DEPRECATE_EOF == 0 {
            self.eof(caps, 2, 0).await;
        }
        for r in rows {
            self.write(r).await;
        }
        self.eof(caps, status, 0).await;
    }

    /// The answer to a prepare command
    pub async fn prepared(&mut self, caps: u32, id: u32, params: u16, cols: &[Col]) {
        let mut p = vec![0];
        p.extend(id.to_le_bytes());
        p.extend((cols.len() as u16).to_le_bytes());
        p.extend(params.to_le_bytes());
        p.push(0);
        p.extend([0, 0]);
        self.write(&p).await;
        for _ in 0..params {
            self.column(&col("?", STRING)).await;
        }
        if params > 0 && caps & DEPRECATE_EOF == 0 {
            self.eof(caps, 2, 0).await;
        }
        for c in cols {
            self.column(c).await;
        }
        if !cols.is_empty() && caps & DEPRECATE_EOF == 0 {
            self.eof(caps, 2, 0).await;
        }
    }
}

pub const LONG: u8 = 0x03;
pub const LONGLONG: u8 = 0x08;
pub const TIME: u8 = 0x0B;
pub const DATETIME: u8 = 0x0C;
pub const STRING: u8 = 0xFD;
pub const UNSIGNED: u16 = 32;

#[derive(Clone)]
pub struct Col {
    pub name: &'static str,
    pub org_name: &'static str,
    pub table: &'static str,
    pub org_table: &'static str,
    pub typ: u8,
    pub flags: u16,
}

pub fn col(name: &'static str, typ: u8) -> Col {
    Col { name, org_name: name, table: "t", org_table: "t", typ, flags: 0 }
}

pub fn lenenc(x: u64) -> Vec<u8> {
    match x {
        0..=250 => vec![x as u8],
        251..=0xFFFF => [&[0xFC][..], &x.to_le_bytes()[..2]].concat(),
        0x10000..=0xFFFFFF => [&[0xFD][..], &x.to_le_bytes()[..3]].concat(),
        _ => [&[0xFE][..], &x.to_le_bytes()[..]].concat(),
    }
}

pub fn lenenc_str(x: &[u8]) -> Vec<u8> {
    [&lenenc(x.len() as u64)[..], x].concat()
}

/// A row of the text protocol
pub fn text_row(cells: &[Option<&[u8]>]) -> Vec<u8> {
    let mut out = Vec::new();
    for c in cells {
        match c {
            Some(c) => out.extend(lenenc_str(c)),
            None => out.push(0xFB),
        }
    }
    out
}

pub async fn connect(t: Target) -> Connection {
    match Connection::connect(Arc::new(options(t))).await {
        Ok(c) => c,
        Err(e) => panic!("login failed: {e:?}"),
    }
}

/// Runs the demonstration; a hang counts as failure.
pub fn run<F: Future<Output = ()>>(f: F) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let ok = rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(60), f).await.is_ok() });
    if !ok {
        eprintln!("stuck");
        std::process::exit(1);
    }
    println!("as expected");
}

fn sha1(parts: &[&[u8]]) -> Vec<u8> {
    use sha1::Digest;
    let mut h = sha1::Sha1::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}

fn mgf1(seed: &[u8], len: usize) -> Vec<u8> {
    let mut out = Vec::new();
    for i in 0u32.. {
        if out.len() >= len {
            break;
        }
        out.extend(sha1(&[seed, &i.to_be_bytes()]));
    }
    out.truncate(len);
    out
}

pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

/// DER (PKCS#1) of a public key with exponent 1, that is: without any secrecy
pub fn open_key(octets: usize, first: u8) -> Vec<u8> {
    let mut n = vec![0xFF; octets];
    n[0] = first;
    if first & 0x80 != 0 {
        n.insert(0, 0);
    }
    let len = |n: usize| match n {
        0..=127 => vec![n as u8],
        128..=255 => vec![0x81, n as u8],
        _ => vec![0x82, (n >> 8) as u8, n as u8],
    };
    let body = [&[2][..], &len(n.len()), &n, &[2, 1, 1]].concat();
    [&[0x30][..], &len(body.len()), &body].concat()
}

/// The message in an OAEP block (with SHA-1)
pub fn unpad(block: &[u8]) -> Option<Vec<u8>> {
    if block.first() != Some(&0) || block.len() < 42 {
        return None;
    }
    let (seed, msg) = block[1..].split_at(20);
    let seed = xor(seed, &mgf1(msg, 20));
    let msg = xor(msg, &mgf1(&seed, msg.len()));
    if msg[..20] != sha1(&[])[..] {
        return None;
    }
    let pos = 20 + msg[20..].iter().position(|x| *x != 0)?;
    (msg[pos] == 1).then(|| msg[pos + 1..].to_vec())
}
