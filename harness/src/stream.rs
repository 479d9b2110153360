//! The in-memory transport: carries bytes between the client under test and a fake
//! server, records everything, and misbehaves in the ways the async read/write
//! contract allows (or, for faults, in the way a test asks for).
use {
    crate::{rng::Rng, wire},
    mysql_connector::Stream,
    std::{
        collections::VecDeque,
        fmt,
        future::Future,
        io,
        pin::Pin,
        sync::{Arc, Mutex, MutexGuard},
        task::{Context, Poll, Waker},
        time::Duration,
    },
    tokio::io::{AsyncRead, AsyncWrite, ReadBuf},
};

pub trait Peer: Send {
    fn start(&mut self, io: &mut PeerIo);
    /// A complete packet (all fragments) has arrived.
    fn packet(&mut self, io: &mut PeerIo, pkt: Vec<u8>);
}

#[derive(Debug)]
pub enum Item {
    Bytes(Vec<u8>, usize),
    Delay(Duration),
    Eof,
    Err(io::ErrorKind),
    Stall,
}

/// The server's end of the connection.
#[derive(Default)]
pub struct PeerIo {
    pub q: VecDeque<Item>,
    /// sequence number of the server's next frame
    pub seq: u8,
    /// first frame of a client packet: `Some(n)` demands n, `None` demands 0 (a command)
    pub login: bool,
    pub frame_errors: Vec<String>,
    pub frames: u64,
    pub packets: u64,
    pub max_frame: usize,
    pub queued: u64,
    pub closed: bool,
    /// frames sent so far
    pub sent: u64,
    /// (frame number, difference, also all frames after it)
    pub tamper: Option<(u64, u8, bool)>,
    pub tampered: bool,
    /// what the wrong frame carries instead of its own payload
    pub stray: Option<Vec<u8>>,
}

impl PeerIo {
    pub fn send(&mut self, payload: &[u8]) {
        let mut b = wire::frame(payload, &mut self.seq);
        let mut pos = 0;
        while pos < b.len() {
            if let Some((at, delta, on)) = self.tamper {
                if self.sent == at || on && self.sent > at && self.tampered {
                    b[pos + 3] = b[pos + 3].wrapping_add(delta);
                    self.tampered = true;
                    let len = u32::from_le_bytes([b[pos], b[pos + 1], b[pos + 2], 0]) as usize;
                    if len < wire::MAX {
                        if let Some(p) = self.stray.take() {
                            b[pos..pos + 3].copy_from_slice(&(p.len() as u32).to_le_bytes()[..3]);
                            b.splice(pos + 4..pos + 4 + len, p);
                        }
                    }
                }
            }
            self.sent += 1;
            pos += 4 + u32::from_le_bytes([b[pos], b[pos + 1], b[pos + 2], 0]) as usize;
        }
        self.raw(b);
    }

    pub fn raw(&mut self, b: Vec<u8>) {
        self.queued += b.len() as u64;
        self.q.push_back(Item::Bytes(b, 0));
    }

    pub fn item(&mut self, i: Item) {
        self.q.push_back(i);
    }

    pub fn delay(&mut self, d: Duration) {
        self.q.push_back(Item::Delay(d));
    }

    fn err(&mut self, s: String) {
        if self.frame_errors.len() < 8 {
            self.frame_errors.push(s);
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    All,
    One,
    /// 1..=n, random
    Upto(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pos {
    /// before the client's byte number n is accepted
    Write(u64),
    /// before the server's byte number n is delivered
    Read(u64),
    /// at flush call number n
    Flush(u64),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Err(io::ErrorKind),
    /// read: end of file; write: `Ok(0)`
    Zero,
    Stall,
    Delay(Duration),
}

#[derive(Clone, Debug)]
pub struct IoPlan {
    pub rchunk: Chunk,
    pub wchunk: Chunk,
    /// per mille of calls answered "not ready" first (and woken at once)
    pub pend: u32,
    /// bytes reach the server only with a flush
    pub need_flush: bool,
    pub faults: Vec<(Pos, Fault)>,
    pub seed: u64,
    /// connect itself
    pub connect_delay: Duration,
    pub connect_err: Option<io::ErrorKind>,
    /// keep a copy of all bytes the client sent (up to this many)
    pub transcript: usize,
}

impl Default for IoPlan {
    fn default() -> Self {
        Self {
            rchunk: Chunk::All,
            wchunk: Chunk::All,
            pend: 0,
            need_flush: false,
            faults: Vec::new(),
            seed: 0,
            connect_delay: Duration::ZERO,
            connect_err: None,
            transcript: 1 << 20,
        }
    }
}

impl IoPlan {
    /// A conforming transport with random chunking and readiness.
    pub fn random(rng: &mut Rng) -> Self {
        fn chunk(rng: &mut Rng) -> Chunk {
            match rng.below(6) {
                0 => Chunk::One,
                1 => Chunk::Upto(2),
                2 => Chunk::Upto(5),
                3 => Chunk::Upto(100),
                _ => Chunk::All,
            }
        }
        Self {
            rchunk: chunk(rng),
            wchunk: chunk(rng),
            pend: *rng.pick(&[0, 0, 50, 300]),
            need_flush: false,
            seed: rng.u64(),
            ..Default::default()
        }
    }
}

pub struct Inner {
    pub peer: Option<Box<dyn Peer>>,
    pub io: PeerIo,
    pub plan: IoPlan,
    rng: Rng,
    unflushed: Vec<u8>,
    parse: Vec<u8>,
    payload: Vec<u8>,
    in_payload: bool,
    next_seq: u8,
    delay: Option<Pin<Box<tokio::time::Sleep>>>,
    rwaker: Option<Waker>,
    pub written: u64,
    pub delivered: u64,
    pub read_calls: u64,
    pub write_calls: u64,
    pub flush_calls: u64,
    pub pendings: u64,
    /// flush state when a read had to wait for the server
    pub waited_unflushed: bool,
    pub transcript: Vec<u8>,
    pub dropped: bool,
    pub shutdown: bool,
    pub eof_served: u64,
    /// every fault fired: (index in plan)
    pub fired: Vec<usize>,
    /// Commands written while earlier response bytes had not been taken by the client.
    pub written_before_drained: u64,
}

impl Inner {
    /// Bytes of an unfinished frame or packet the server is still waiting for.
    pub fn leftover(&self) -> usize {
        self.parse.len() + self.payload.len() + self.in_payload as usize
    }

    /// Server bytes not yet taken by the client.
    pub fn undelivered(&self) -> usize {
        self.io
            .q
            .iter()
            .map(|i| match i {
                Item::Bytes(b, p) => b.len() - p,
                _ => 0,
            })
            .sum()
    }

    fn feed(&mut self, data: &[u8]) {
        if self.io.closed {
            return;
        }
        self.parse.extend_from_slice(data);
        let mut pos = 0;
        loop {
            let rest = &self.parse[pos..];
            if rest.len() < 4 {
                break;
            }
            let len = u32::from_le_bytes([rest[0], rest[1], rest[2], 0]) as usize;
            let seq = rest[3];
            if rest.len() < 4 + len {
                break;
            }
            let expect = if self.in_payload {
                self.next_seq
            } else if self.io.login {
                self.io.seq
            } else {
                0
            };
            if seq != expect {
                let m = format!("client frame of length {len} has sequence number {seq}, expected {expect}");
                self.io.err(m);
            }
            self.io.frames += 1;
            self.io.max_frame = self.io.max_frame.max(len);
            self.payload.extend_from_slice(&rest[4..4 + len]);
            pos += 4 + len;
            self.in_payload = len == wire::MAX;
            self.next_seq = seq.wrapping_add(1);
            if !self.in_payload {
                let pkt = std::mem::take(&mut self.payload);
                self.io.packets += 1;
                self.io.seq = self.next_seq;
                if !self.io.q.iter().all(|i| matches!(i, Item::Delay(_))) {
                    self.written_before_drained += 1;
                }
                if let Some(mut p) = self.peer.take() {
                    p.packet(&mut self.io, pkt);
                    self.peer = Some(p);
                }
                if let Some(w) = self.rwaker.take() {
                    w.wake();
                }
            }
        }
        self.parse.drain(..pos);
    }

    fn fault(&mut self, hit: impl Fn(Pos) -> bool) -> Option<Fault> {
        for (i, (p, f)) in self.plan.faults.iter().enumerate() {
            if hit(*p) {
                let f = *f;
                match f {
                    // a stall is for ever; end of file and write-zero too
                    Fault::Stall | Fault::Zero => {
                        if !self.fired.contains(&i) {
                            self.fired.push(i);
                        }
                        return Some(f);
                    }
                    _ => {
                        if !self.fired.contains(&i) {
                            self.fired.push(i);
                            return Some(f);
                        }
                    }
                }
            }
        }
        None
    }

    /// How many bytes may pass before the next fault position.
    fn limit(&self, at: u64, read: bool) -> usize {
        let mut n = u64::MAX;
        for (i, (p, _)) in self.plan.faults.iter().enumerate() {
            let k = match (p, read) {
                (Pos::Read(k), true) | (Pos::Write(k), false) => *k,
                _ => continue,
            };
            if k > at && !self.fired.contains(&i) {
                n = n.min(k - at);
            }
        }
        usize::try_from(n).unwrap_or(usize::MAX)
    }

    fn chunk(&mut self, c: Chunk) -> usize {
        match c {
            Chunk::All => usize::MAX,
            Chunk::One => 1,
            Chunk::Upto(n) => 1 + self.rng.usize(n),
        }
    }

    fn spurious(&mut self, cx: &Context<'_>) -> bool {
        if self.plan.pend > 0 && self.rng.below(1000) < self.plan.pend as u64 {
            self.pendings += 1;
            cx.waker().wake_by_ref();
            true
        } else {
            false
        }
    }

    fn start_delay(&mut self, d: Duration, cx: &mut Context<'_>) -> Poll<()> {
        let mut s = Box::pin(tokio::time::sleep(d));
        match s.as_mut().poll(cx) {
            Poll::Ready(()) => Poll::Ready(()),
            Poll::Pending => {
                self.delay = Some(s);
                Poll::Pending
            }
        }
    }

    fn poll_delay(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        if let Some(d) = &mut self.delay {
            if d.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            self.delay = None;
        }
        Poll::Ready(())
    }
}

/// The harness's view of one transport.
#[derive(Clone)]
pub struct Link(pub Arc<Mutex<Inner>>);

impl Link {
    pub fn new(peer: Box<dyn Peer>, plan: IoPlan) -> Self {
        let rng = Rng::new(&[plan.seed, 77]);
        let mut inner = Inner {
            peer: Some(peer),
            io: PeerIo { login: true, ..Default::default() },
            plan,
            rng,
            unflushed: Vec::new(),
            parse: Vec::new(),
            payload: Vec::new(),
            in_payload: false,
            next_seq: 0,
            delay: None,
            rwaker: None,
            written: 0,
            delivered: 0,
            read_calls: 0,
            write_calls: 0,
            flush_calls: 0,
            pendings: 0,
            waited_unflushed: false,
            transcript: Vec::new(),
            dropped: false,
            shutdown: false,
            eof_served: 0,
            fired: Vec::new(),
            written_before_drained: 0,
        };
        let mut p = inner.peer.take().unwrap();
        p.start(&mut inner.io);
        inner.peer = Some(p);
        Link(Arc::new(Mutex::new(inner)))
    }

    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn stream<const S: bool>(&self) -> MemStream<S> {
        MemStream(self.clone())
    }

    /// For servers behind another transport: bytes that arrived there.
    pub fn arrived(&self, data: &[u8]) {
        let mut g = self.lock();
        g.written += data.len() as u64;
        g.feed(data);
    }

    /// For servers behind another transport: up to `max` bytes to send. `Err(())` is the end of file.
    pub fn to_send(&self, max: usize) -> Result<Vec<u8>, ()> {
        let mut g = self.lock();
        loop {
            match g.io.q.front_mut() {
                None => return Ok(vec![]),
                Some(Item::Bytes(b, p)) if *p == b.len() => {
                    g.io.q.pop_front();
                }
                Some(Item::Bytes(b, p)) => {
                    let n = max.min(b.len() - *p);
                    let out = b[*p..*p + n].to_vec();
                    *p += n;
                    g.delivered += n as u64;
                    return Ok(out);
                }
                Some(Item::Eof) => return Err(()),
                Some(_) => {
                    g.io.q.pop_front();
                }
            }
        }
    }

    pub fn frame_errors(&self) -> Vec<String> {
        self.lock().io.frame_errors.clone()
    }
}

impl fmt::Debug for Link {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Link")
    }
}

pub struct MemStream<const SECURE: bool>(Link);

impl<const S: bool> fmt::Debug for MemStream<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("MemStream")
    }
}

impl<const S: bool> Drop for MemStream<S> {
    fn drop(&mut self) {
        let mut i = self.0.lock();
        i.dropped = true;
        i.delay = None;
        i.rwaker = None;
    }
}

/// A stream may look at whatever it is handed. In the builds with sanitizers this one does, so that
/// they notice memory which was never written.
pub fn look(bytes: &[u8]) {
    if cfg!(feature = "plainalloc") {
        let n = bytes.len();
        let sum: u64 = bytes[..n.min(64)].iter().chain(&bytes[n - n.min(64)..]).map(|b| u64::from(*b)).sum();
        if std::hint::black_box(sum) > 1 << 32 {
            std::process::exit(3);
        }
    }
}

impl<const S: bool> AsyncRead for MemStream<S> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut g = self.0.lock();
        let s = &mut *g;
        s.read_calls += 1;
        look(&buf.initialized()[buf.filled().len()..]);
        if buf.remaining() == 0 {
            return Poll::Ready(Ok(()));
        }
        if s.spurious(cx) {
            return Poll::Pending;
        }
        loop {
            if s.poll_delay(cx).is_pending() {
                return Poll::Pending;
            }
            if !s.unflushed.is_empty() {
                s.waited_unflushed = true;
            }
            let at = s.delivered;
            if let Some(f) = s.fault(|p| matches!(p, Pos::Read(n) if n == at)) {
                match f {
                    Fault::Err(k) => return Poll::Ready(Err(k.into())),
                    Fault::Zero => {
                        s.eof_served += 1;
                        return Poll::Ready(Ok(()));
                    }
                    Fault::Stall => return Poll::Pending,
                    Fault::Delay(d) => {
                        if s.start_delay(d, cx).is_pending() {
                            return Poll::Pending;
                        }
                    }
                }
            }
            match s.io.q.front_mut() {
                None => {
                    s.rwaker = Some(cx.waker().clone());
                    return Poll::Pending;
                }
                Some(Item::Bytes(b, pos)) => {
                    if *pos == b.len() {
                        s.io.q.pop_front();
                        continue;
                    }
                    let c = s.plan.rchunk;
                    let mut n = buf.remaining().min(s.chunk(c)).min(s.limit(at, true));
                    let Some(Item::Bytes(b, pos)) = s.io.q.front_mut() else { unreachable!() };
                    n = n.min(b.len() - *pos);
                    buf.put_slice(&b[*pos..*pos + n]);
                    *pos += n;
                    let done = *pos == b.len();
                    if done {
                        s.io.q.pop_front();
                    }
                    s.delivered += n as u64;
                    return Poll::Ready(Ok(()));
                }
                Some(Item::Delay(d)) => {
                    let d = *d;
                    s.io.q.pop_front();
                    if s.start_delay(d, cx).is_pending() {
                        return Poll::Pending;
                    }
                }
                Some(Item::Eof) => {
                    s.eof_served += 1;
                    return Poll::Ready(Ok(()));
                }
                Some(Item::Err(k)) => {
                    let k = *k;
                    s.io.q.pop_front();
                    return Poll::Ready(Err(k.into()));
                }
                Some(Item::Stall) => return Poll::Pending,
            }
        }
    }
}

impl<const S: bool> AsyncWrite for MemStream<S> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut g = self.0.lock();
        let s = &mut *g;
        s.write_calls += 1;
        look(buf);
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if s.spurious(cx) {
            return Poll::Pending;
        }
        if s.poll_delay(cx).is_pending() {
            return Poll::Pending;
        }
        let at = s.written;
        if let Some(f) = s.fault(|p| matches!(p, Pos::Write(n) if n == at)) {
            match f {
                Fault::Err(k) => return Poll::Ready(Err(k.into())),
                Fault::Zero => return Poll::Ready(Ok(0)),
                Fault::Stall => return Poll::Pending,
                Fault::Delay(d) => {
                    if s.start_delay(d, cx).is_pending() {
                        return Poll::Pending;
                    }
                }
            }
        }
        let c = s.plan.wchunk;
        let n = buf.len().min(s.chunk(c)).min(s.limit(at, false));
        s.written += n as u64;
        let room = s.plan.transcript.saturating_sub(s.transcript.len());
        s.transcript.extend_from_slice(&buf[..n.min(room)]);
        if s.plan.need_flush {
            s.unflushed.extend_from_slice(&buf[..n]);
        } else {
            s.feed(&buf[..n]);
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut g = self.0.lock();
        let s = &mut *g;
        if s.spurious(cx) {
            return Poll::Pending;
        }
        if s.poll_delay(cx).is_pending() {
            return Poll::Pending;
        }
        let at = s.flush_calls;
        if let Some(f) = s.fault(|p| matches!(p, Pos::Flush(n) if n == at)) {
            match f {
                Fault::Err(k) => return Poll::Ready(Err(k.into())),
                Fault::Zero => return Poll::Ready(Err(io::ErrorKind::WriteZero.into())),
                Fault::Stall => return Poll::Pending,
                Fault::Delay(d) => {
                    if s.start_delay(d, cx).is_pending() {
                        return Poll::Pending;
                    }
                }
            }
        }
        s.flush_calls += 1;
        let b = std::mem::take(&mut s.unflushed);
        s.feed(&b);
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let r = self.as_ref().get_ref().0.clone();
        let out = Pin::new(&mut *self.get_mut()).poll_flush(cx);
        r.lock().shutdown = true;
        out
    }
}

pub trait Dialer: Send + Sync {
    fn dial(&self) -> Link;
}

impl<F: Fn() -> Link + Send + Sync> Dialer for F {
    fn dial(&self) -> Link {
        self()
    }
}

#[derive(Clone, Default)]
pub struct MemOptions {
    pub dialer: Option<Arc<dyn Dialer>>,
}

impl fmt::Debug for MemOptions {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("MemOptions")
    }
}

impl<const S: bool> Stream for MemStream<S> {
    const SECURE: bool = S;
    type Options = MemOptions;

    async fn connect(data: &MemOptions) -> Result<Self, io::Error> {
        let link = data.dialer.as_ref().ok_or(io::ErrorKind::NotFound)?.dial();
        let (d, e) = {
            let g = link.lock();
            (g.plan.connect_delay, g.plan.connect_err)
        };
        // the stream exists (and is dropped) even if connecting is cancelled
        let s = link.stream();
        if !d.is_zero() {
            tokio::time::sleep(d).await;
        }
        match e {
            Some(k) => Err(k.into()),
            None => Ok(s),
        }
    }
}
