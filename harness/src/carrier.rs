//! Transports of many kinds for the same connection.
use {
    crate::{rng::Rng, stream::Link},
    mysql_connector::{Stream, StreamRequirements},
    std::{
        fmt, io,
        mem::MaybeUninit,
        pin::Pin,
        sync::Arc,
        task::{Context, Poll},
        time::Duration,
    },
    tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf},
};

type Make = Arc<dyn Fn() -> io::Result<Box<dyn StreamRequirements>> + Send + Sync>;

/// Any transport.
pub struct Carrier<const S: bool>(Box<dyn StreamRequirements>);

#[derive(Clone, Default)]
pub struct CarrierOptions {
    pub make: Option<Make>,
}

impl CarrierOptions {
    pub fn new(f: impl Fn() -> io::Result<Box<dyn StreamRequirements>> + Send + Sync + 'static) -> Self {
        Self { make: Some(Arc::new(f)) }
    }
}

impl fmt::Debug for CarrierOptions {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("CarrierOptions")
    }
}

impl<const S: bool> fmt::Debug for Carrier<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Carrier")
    }
}

impl<const S: bool> Stream for Carrier<S> {
    const SECURE: bool = S;
    type Options = CarrierOptions;

    async fn connect(data: &CarrierOptions) -> Result<Self, io::Error> {
        match &data.make {
            Some(f) => f().map(Self),
            None => Err(io::ErrorKind::NotFound.into()),
        }
    }
}

macro_rules! delegate_write {
    ($($f:tt)*) => {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            Pin::new(&mut self.get_mut().$($f)*).poll_write(cx, buf)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.get_mut().$($f)*).poll_flush(cx)
        }
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            Pin::new(&mut self.get_mut().$($f)*).poll_shutdown(cx)
        }
    };
}

impl<const S: bool> AsyncRead for Carrier<S> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.get_mut().0).poll_read(cx, buf)
    }
}

impl<const S: bool> AsyncWrite for Carrier<S> {
    delegate_write!(0);
}

/// Reads through the other ways of filling a `ReadBuf`.
#[derive(Debug)]
pub struct Filler<T>(pub T, pub Rng);

impl<T: AsyncRead + Unpin> AsyncRead for Filler<T> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let this = self.get_mut();
        let n = match this.1.below(3) {
            0 => buf.remaining(),
            _ => buf.remaining().min(1 + this.1.usize(40)),
        };
        match this.1.below(4) {
            0 => {
                let mut own = vec![0; n];
                let mut rb = ReadBuf::new(&mut own);
                let r = Pin::new(&mut this.0).poll_read(cx, &mut rb);
                buf.put_slice(rb.filled());
                r
            }
            1 => {
                let dst = buf.initialize_unfilled_to(n);
                let mut rb = ReadBuf::new(dst);
                let r = Pin::new(&mut this.0).poll_read(cx, &mut rb);
                let got = rb.filled().len();
                buf.advance(got);
                r
            }
            2 => {
                let mut own = vec![0; n];
                let mut rb = ReadBuf::new(&mut own);
                let r = Pin::new(&mut this.0).poll_read(cx, &mut rb);
                let got = rb.filled();
                // SAFETY: exactly the bytes written here are declared initialised
                unsafe {
                    for (d, s) in buf.unfilled_mut().iter_mut().zip(got) {
                        *d = MaybeUninit::new(*s);
                    }
                    buf.assume_init(got.len());
                }
                buf.advance(got.len());
                r
            }
            _ => Pin::new(&mut this.0).poll_read(cx, buf),
        }
    }
}

impl<T: AsyncWrite + Unpin> AsyncWrite for Filler<T> {
    delegate_write!(0);
}

/// Is often not ready and wakes whoever asked last, and only them, some time later.
pub struct Later<T> {
    inner: T,
    rng: Rng,
    permille: u64,
    read: Option<Pin<Box<tokio::time::Sleep>>>,
    write: Option<Pin<Box<tokio::time::Sleep>>>,
    flush: Option<Pin<Box<tokio::time::Sleep>>>,
}

impl<T> Later<T> {
    pub fn new(inner: T, rng: Rng, permille: u64) -> Self {
        Self { inner, rng, permille, read: None, write: None, flush: None }
    }

    fn wait(rng: &mut Rng, permille: u64, slot: &mut Option<Pin<Box<tokio::time::Sleep>>>, cx: &mut Context<'_>) -> bool {
        use std::future::Future;
        let had = slot.is_some();
        if !had && rng.below(1000) < permille {
            *slot = Some(Box::pin(tokio::time::sleep(Duration::from_millis(1 + rng.below(30)))));
        }
        match slot {
            Some(s) => match s.as_mut().poll(cx) {
                Poll::Pending => true,
                Poll::Ready(()) => {
                    *slot = None;
                    false
                }
            },
            None => false,
        }
    }
}

impl<T> fmt::Debug for Later<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Later")
    }
}

impl<T: AsyncRead + Unpin> AsyncRead for Later<T> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let t = self.get_mut();
        if Self::wait(&mut t.rng, t.permille, &mut t.read, cx) {
            return Poll::Pending;
        }
        Pin::new(&mut t.inner).poll_read(cx, buf)
    }
}

impl<T: AsyncWrite + Unpin> AsyncWrite for Later<T> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let t = self.get_mut();
        if Self::wait(&mut t.rng, t.permille, &mut t.write, cx) {
            return Poll::Pending;
        }
        Pin::new(&mut t.inner).poll_write(cx, buf)
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let t = self.get_mut();
        if Self::wait(&mut t.rng, t.permille, &mut t.flush, cx) {
            return Poll::Pending;
        }
        Pin::new(&mut t.inner).poll_flush(cx)
    }

    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.get_mut().inner).poll_shutdown(cx)
    }
}

/// Answers over `stream` what the server behind `link` says, until either side closes.
pub async fn serve<T: AsyncRead + AsyncWrite + Unpin>(mut stream: T, link: Link, mut rng: Rng) {
    let max = *rng.pick(&[1usize, 7, 100, 5000, 1 << 20]);
    let mut buf = vec![0; *rng.pick(&[1usize, 3, 64, 4096, 1 << 16])];
    loop {
        loop {
            match link.to_send(1 + rng.usize(max)) {
                Ok(b) if b.is_empty() => break,
                Ok(b) => {
                    if stream.write_all(&b).await.is_err() {
                        return;
                    }
                }
                Err(()) => {
                    let _ = stream.shutdown().await;
                    return;
                }
            }
        }
        if stream.flush().await.is_err() {
            return;
        }
        match stream.read(&mut buf).await {
            Ok(0) | Err(_) => return,
            Ok(n) => link.arrived(&buf[..n]),
        }
    }
}
