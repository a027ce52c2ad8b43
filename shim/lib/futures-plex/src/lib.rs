//! Stand-in for `futures-plex`: a bounded in-memory duplex.
use futures::{AsyncRead, AsyncWrite};
use std::{
    io,
    pin::Pin,
    sync::{Arc, Mutex, MutexGuard},
    task::{Context, Poll, Waker},
};

struct Simplex {
    buf: Vec<u8>,
    start: usize,
    end: usize,
    /// No more data will be written.
    closed: bool,
    /// Nobody reads any more.
    dead: bool,
    rw: Option<Waker>,
    ww: Option<Waker>,
}
impl Simplex {
    fn new(cap: usize) -> Arc<Mutex<Self>> {
        Arc::new(Mutex::new(Simplex { buf: vec![0; cap], start: 0, end: 0, closed: false, dead: false, rw: None, ww: None }))
    }
    fn poll_get(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        if self.start < self.end || self.closed {
            return Poll::Ready(Ok(&self.buf[self.start..self.end]));
        }
        self.rw = Some(cx.waker().clone());
        Poll::Pending
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.end - self.start);
        self.start += n;
        if let Some(w) = self.ww.take() {
            w.wake()
        }
    }
    fn poll_mut(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&mut [u8]>> {
        if self.dead || self.closed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if self.start > 0 {
            self.buf.copy_within(self.start..self.end, 0);
            self.end -= self.start;
            self.start = 0;
        }
        if self.end == self.buf.len() {
            self.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let e = self.end;
        Poll::Ready(Ok(&mut self.buf[e..]))
    }
    fn advance_mut(&mut self, n: usize) {
        assert!(n <= self.buf.len() - self.end);
        self.end += n;
        if let Some(w) = self.rw.take() {
            w.wake()
        }
    }
    fn close(&mut self) {
        self.closed = true;
        if let Some(w) = self.rw.take() {
            w.wake()
        }
    }
}

/// Read access to the incoming buffer.
pub struct ReadGuard<'a>(MutexGuard<'a, Simplex>);
impl ReadGuard<'_> {
    /// The buffered data; empty at the end.
    pub fn poll_get(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        self.0.poll_get(cx)
    }
    /// Consumes.
    pub fn advance(&mut self, n: usize) {
        self.0.advance(n)
    }
}
/// Write access to the outgoing buffer.
pub struct WriteGuard<'a>(MutexGuard<'a, Simplex>);
impl WriteGuard<'_> {
    /// The free space.
    pub fn poll_mut(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&mut [u8]>> {
        self.0.poll_mut(cx)
    }
    /// Commits.
    pub fn advance_mut(&mut self, n: usize) {
        self.0.advance_mut(n)
    }
}

/// One end.
pub struct DuplexStream {
    rx: Arc<Mutex<Simplex>>,
    tx: Arc<Mutex<Simplex>>,
}
impl std::fmt::Debug for DuplexStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("DuplexStream")
    }
}
/// A connected pair.
pub fn duplex(cap: usize) -> (DuplexStream, DuplexStream) {
    let (a, b) = (Simplex::new(cap), Simplex::new(cap));
    (DuplexStream { rx: a.clone(), tx: b.clone() }, DuplexStream { rx: b, tx: a })
}
impl DuplexStream {
    /// Locks the read half.
    pub fn poll_lock_read<'a>(self: Pin<&'a mut Self>, _cx: &mut Context<'_>) -> Poll<ReadGuard<'a>> {
        Poll::Ready(ReadGuard(self.get_mut().rx.lock().unwrap()))
    }
    /// Locks the write half.
    pub fn poll_lock_write<'a>(self: Pin<&'a mut Self>, _cx: &mut Context<'_>) -> Poll<WriteGuard<'a>> {
        Poll::Ready(WriteGuard(self.get_mut().tx.lock().unwrap()))
    }
    /// Fills the outgoing buffer from `io`; 0 when `io` ended.
    pub fn poll_write_from<T: AsyncRead>(&mut self, cx: &mut Context<'_>, io: Pin<&mut T>) -> Poll<io::Result<usize>> {
        let mut s = self.tx.lock().unwrap();
        let buf = std::task::ready!(s.poll_mut(cx))?;
        let n = std::task::ready!(io.poll_read(cx, buf))?;
        if n > 0 {
            s.advance_mut(n);
        }
        Poll::Ready(Ok(n))
    }
    /// Drains the incoming buffer to `io`.
    pub fn poll_read_to<T: AsyncWrite>(&mut self, cx: &mut Context<'_>, mut io: Pin<&mut T>) -> Poll<io::Result<usize>> {
        let mut s = self.rx.lock().unwrap();
        let mut total = 0;
        loop {
            match s.poll_get(cx) {
                Poll::Ready(Ok(b)) if b.is_empty() => return Poll::Ready(Ok(total)),
                Poll::Ready(Ok(b)) => match io.as_mut().poll_write(cx, b) {
                    Poll::Ready(Ok(n)) => {
                        s.advance(n);
                        total += n;
                    }
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => break,
                },
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => break,
            }
        }
        drop(s);
        std::task::ready!(io.poll_flush(cx))?;
        if total > 0 { Poll::Ready(Ok(total)) } else { Poll::Pending }
    }
}
impl AsyncRead for DuplexStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut s = self.rx.lock().unwrap();
        let d = std::task::ready!(s.poll_get(cx))?;
        let n = d.len().min(b.len());
        b[..n].copy_from_slice(&d[..n]);
        s.advance(n);
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for DuplexStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.tx.lock().unwrap();
        let d = std::task::ready!(s.poll_mut(cx))?;
        let n = d.len().min(b.len());
        d[..n].copy_from_slice(&b[..n]);
        s.advance_mut(n);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.tx.lock().unwrap().close();
        Poll::Ready(Ok(()))
    }
}
impl Drop for DuplexStream {
    fn drop(&mut self) {
        self.tx.lock().unwrap().close();
        let mut r = self.rx.lock().unwrap();
        r.dead = true;
        if let Some(w) = r.ww.take() {
            w.wake()
        }
    }
}
