//! Stand-in for `tlsn-mux`: named streams over one connection.
//!
//! Frame: kind (1), id length (2), id, payload length (4), payload.
use futures::{AsyncRead, AsyncWrite};
use std::{
    collections::{BTreeMap, VecDeque},
    io,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

const DATA: u8 = 0;
const FIN: u8 = 1;
const CLOSE: u8 = 2;
const LIMIT: usize = 1 << 20;

/// Options.
#[derive(Debug, Default, Clone)]
pub struct Config {
    close_sync: bool,
}
impl Config {
    /// Keep-alive; no effect here.
    pub fn set_keep_alive(&mut self, _: bool) -> &mut Self {
        self
    }
    /// Whether closing waits for the other side.
    pub fn set_close_sync(&mut self, v: bool) -> &mut Self {
        self.close_sync = v;
        self
    }
}
/// Error of the connection.
#[derive(Debug)]
pub struct ConnectionError(io::Error);
impl std::fmt::Display for ConnectionError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "connection: {}", self.0)
    }
}
impl std::error::Error for ConnectionError {}

#[derive(Default)]
struct Chan {
    rx: VecDeque<u8>,
    fin: bool,
    open: bool,
    taken: bool,
    rw: Option<Waker>,
    ww: Option<Waker>,
}
#[derive(Default)]
struct Shared {
    chans: BTreeMap<Vec<u8>, Chan>,
    out: VecDeque<u8>,
    driver: Option<Waker>,
    failed: bool,
    peer_closed: bool,
}
impl Shared {
    fn frame(&mut self, kind: u8, id: &[u8], data: &[u8]) {
        self.out.push_back(kind);
        self.out.extend((id.len() as u16).to_be_bytes());
        self.out.extend(id);
        self.out.extend((data.len() as u32).to_be_bytes());
        self.out.extend(data);
        if let Some(w) = self.driver.take() {
            w.wake()
        }
    }
    fn wake_all(&mut self) {
        for c in self.chans.values_mut() {
            if let Some(w) = c.rw.take() {
                w.wake()
            }
            if let Some(w) = c.ww.take() {
                w.wake()
            }
        }
    }
}

struct Guard(Arc<Mutex<Shared>>);
impl Drop for Guard {
    fn drop(&mut self) {
        let mut sh = self.0.lock().unwrap();
        sh.failed = true;
        sh.wake_all();
    }
}

/// The connection; must be polled.
pub struct Connection<T> {
    _guard: Guard,
    io: T,
    sh: Arc<Mutex<Shared>>,
    inbuf: Vec<u8>,
    closing: bool,
    sent_close: bool,
    complete: bool,
    sync: bool,
}
impl<T> Connection<T> {
    /// Over `io`.
    pub fn new(io: T, c: Config) -> Self {
        let sh: Arc<Mutex<Shared>> = Default::default();
        Connection { _guard: Guard(sh.clone()), io, sh, inbuf: vec![], closing: false, sent_close: false, complete: false, sync: c.close_sync }
    }
    /// A handle for opening streams.
    pub fn handle(&self) -> Result<Handle, ConnectionError> {
        Ok(Handle { sh: self.sh.clone() })
    }
    /// Begins closing.
    pub fn close(&mut self) {
        self.closing = true;
    }
    /// Whether closing has finished.
    pub fn is_complete(&self) -> bool {
        self.complete
    }
    /// Gives the io back after completion.
    pub fn try_into_io(self) -> Result<T, Self>
    where
        Self: Sized,
    {
        if self.complete {
            Ok(self.into_io())
        } else {
            Err(self)
        }
    }
    fn into_io(self) -> T {
        self.io
    }
}
impl<T: AsyncRead + AsyncWrite + Unpin> Connection<T> {
    /// Drives the connection.
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), ConnectionError>> {
        match self.inner(cx) {
            Poll::Ready(Err(e)) => {
                let mut sh = self.sh.lock().unwrap();
                sh.failed = true;
                sh.wake_all();
                Poll::Ready(Err(ConnectionError(e)))
            }
            Poll::Ready(Ok(())) => {
                self.complete = true;
                let mut sh = self.sh.lock().unwrap();
                sh.failed = true;
                sh.wake_all();
                Poll::Ready(Ok(()))
            }
            Poll::Pending => Poll::Pending,
        }
    }
    fn inner(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.complete {
            return Poll::Ready(Ok(()));
        }
        let mut drained = false;
        loop {
            let mut progress = false;
            {
                let mut guard = self.sh.lock().unwrap();
                let sh = &mut *guard;
                sh.driver = Some(cx.waker().clone());
                if self.closing && !self.sent_close {
                    sh.frame(CLOSE, &[], &[]);
                    sh.driver = Some(cx.waker().clone());
                    self.sent_close = true;
                }
                while !sh.out.is_empty() {
                    let (a, _) = sh.out.as_slices();
                    match Pin::new(&mut self.io).poll_write(cx, a) {
                        Poll::Ready(Ok(0)) => return Poll::Ready(Err(io::ErrorKind::WriteZero.into())),
                        Poll::Ready(Ok(n)) => {
                            sh.out.drain(..n);
                            progress = true;
                            drained = false;
                        }
                        // Data of the other side may still be there to be read.
                        Poll::Ready(Err(e)) if sh.peer_closed => return Poll::Ready(Err(e)),
                        Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                        Poll::Pending => break,
                    }
                }
                if sh.out.len() < LIMIT {
                    for c in sh.chans.values_mut() {
                        if let Some(w) = c.ww.take() {
                            w.wake()
                        }
                    }
                }
            }
            if !drained {
                match Pin::new(&mut self.io).poll_flush(cx) {
                    Poll::Ready(Ok(())) => drained = true,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => {}
                }
            }
            let peer = self.sh.lock().unwrap().peer_closed;
            if peer && self.sent_close && drained && self.sh.lock().unwrap().out.is_empty() {
                return Poll::Ready(Ok(()));
            }
            if !self.sync && self.sent_close && drained && self.sh.lock().unwrap().out.is_empty() {
                return Poll::Ready(Ok(()));
            }
            if !peer {
                let mut b = [0u8; 16384];
                match Pin::new(&mut self.io).poll_read(cx, &mut b) {
                    Poll::Ready(Ok(0)) => return Poll::Ready(Err(io::ErrorKind::UnexpectedEof.into())),
                    Poll::Ready(Ok(n)) => {
                        self.inbuf.extend_from_slice(&b[..n]);
                        self.dispatch()?;
                        progress = true;
                    }
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => {}
                }
            }
            if !progress {
                return Poll::Pending;
            }
        }
    }
    fn dispatch(&mut self) -> io::Result<()> {
        let bad = || io::Error::from(io::ErrorKind::InvalidData);
        let mut sh = self.sh.lock().unwrap();
        let mut pos = 0;
        loop {
            let b = &self.inbuf[pos..];
            if b.len() < 3 {
                break;
            }
            let il = u16::from_be_bytes([b[1], b[2]]) as usize;
            if b.len() < 7 + il {
                break;
            }
            let dl = u32::from_be_bytes(b[3 + il..7 + il].try_into().unwrap()) as usize;
            if dl > 64 << 20 {
                return Err(bad());
            }
            if b.len() < 7 + il + dl {
                break;
            }
            let (id, data) = (b[3..3 + il].to_vec(), &b[7 + il..7 + il + dl]);
            match b[0] {
                DATA | FIN => {
                    let c = sh.chans.entry(id).or_default();
                    c.rx.extend(data);
                    c.fin |= b[0] == FIN;
                    if let Some(w) = c.rw.take() {
                        w.wake()
                    }
                }
                CLOSE => {
                    sh.peer_closed = true;
                    sh.wake_all();
                    pos += 7 + il + dl;
                    break;
                }
                _ => return Err(bad()),
            }
            pos += 7 + il + dl;
        }
        self.inbuf.drain(..pos);
        Ok(())
    }
}

/// Opens streams.
#[derive(Clone)]
pub struct Handle {
    sh: Arc<Mutex<Shared>>,
}
impl std::fmt::Debug for Handle {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Handle")
    }
}
impl Handle {
    /// The stream named `id`, opened by both sides.
    pub fn new_stream(&self, id: &[u8]) -> Result<Stream, ConnectionError> {
        let mut sh = self.sh.lock().unwrap();
        if sh.failed {
            return Err(ConnectionError(io::ErrorKind::NotConnected.into()));
        }
        let c = sh.chans.entry(id.to_vec()).or_default();
        if c.taken {
            return Err(ConnectionError(io::ErrorKind::AlreadyExists.into()));
        }
        c.taken = true;
        c.open = true;
        Ok(Stream { id: id.to_vec(), sh: self.sh.clone(), closed: false })
    }
}

/// A stream.
pub struct Stream {
    id: Vec<u8>,
    sh: Arc<Mutex<Shared>>,
    closed: bool,
}
impl std::fmt::Debug for Stream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Stream")
    }
}
impl AsyncRead for Stream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
        let shared = self.sh.clone();
        let mut sh = shared.lock().unwrap();
        let (failed, peer) = (sh.failed, sh.peer_closed);
        let c = sh.chans.get_mut(&self.id).unwrap();
        let n = c.rx.len().min(b.len());
        if n > 0 {
            for (x, y) in b.iter_mut().zip(c.rx.drain(..n)) {
                *x = y
            }
            return Poll::Ready(Ok(n));
        }
        // The end of one direction, once seen, is the end of both.
        if c.fin && !b.is_empty() && !self.closed && !failed && !peer {
            self.closed = true;
            sh.frame(FIN, &self.id, &[]);
            return Poll::Ready(Ok(0));
        }
        if c.fin || b.is_empty() || peer {
            return Poll::Ready(Ok(0));
        }
        if failed {
            return Poll::Ready(Err(io::ErrorKind::ConnectionAborted.into()));
        }
        c.rw = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        let mut sh = self.sh.lock().unwrap();
        if sh.failed || self.closed || sh.peer_closed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if sh.out.len() >= LIMIT {
            sh.chans.get_mut(&self.id).unwrap().ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = b.len().min(65536);
        sh.frame(DATA, &self.id, &b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        if !self.closed {
            self.closed = true;
            let id = self.id.clone();
            self.sh.lock().unwrap().frame(FIN, &id, &[]);
        }
        Poll::Ready(Ok(()))
    }
}
impl Drop for Stream {
    fn drop(&mut self) {
        if !self.closed {
            let id = self.id.clone();
            self.sh.lock().unwrap().frame(FIN, &id, &[]);
        }
    }
}
