//! `mpz-common`.
use async_trait::async_trait;
use futures::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use serde::{Serialize, de::DeserializeOwned};
use std::{future::Future, pin::Pin, sync::Arc};

/// Channels.
pub mod io {
    use super::*;
    use std::{
        collections::{BTreeMap, VecDeque},
        sync::Mutex,
        task::{Context as Cx, Poll, Waker},
    };
    pub(crate) trait Stream: AsyncRead + AsyncWrite + Send + Unpin {}
    impl<T: AsyncRead + AsyncWrite + Send + Unpin> Stream for T {}
    const LIMIT: usize = 1 << 20;

    /// A connection shared by the channels of a context and of the tasks it
    /// runs side by side. Frame: path length, path, data length (4), data.
    struct Phys {
        s: Box<dyn Stream>,
        out: VecDeque<u8>,
        inb: Vec<u8>,
        queues: BTreeMap<Vec<u8>, VecDeque<u8>>,
        wakers: Vec<Waker>,
        eof: bool,
    }
    impl Phys {
        fn drain(&mut self, cx: &mut Cx<'_>) -> Poll<std::io::Result<()>> {
            while !self.out.is_empty() {
                let (a, _) = self.out.as_slices();
                match Pin::new(&mut self.s).poll_write(cx, a) {
                    Poll::Ready(Ok(0)) => return Poll::Ready(Err(std::io::ErrorKind::WriteZero.into())),
                    Poll::Ready(Ok(n)) => drop(self.out.drain(..n)),
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => return Poll::Pending,
                }
            }
            Poll::Ready(Ok(()))
        }
        fn fill(&mut self, cx: &mut Cx<'_>) -> Poll<std::io::Result<()>> {
            let mut b = [0u8; 8192];
            let n = match Pin::new(&mut self.s).poll_read(cx, &mut b) {
                Poll::Ready(Ok(n)) => n,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            };
            self.eof |= n == 0;
            self.inb.extend_from_slice(&b[..n]);
            let mut at = 0;
            loop {
                let x = &self.inb[at..];
                let Some(&p) = x.first() else { break };
                let p = p as usize;
                let Some(l) = x.get(1 + p..5 + p) else { break };
                let l = u32::from_be_bytes(l.try_into().unwrap()) as usize;
                let Some(data) = x.get(5 + p..5 + p + l) else { break };
                self.queues.entry(x[1..1 + p].to_vec()).or_default().extend(data);
                at += 5 + p + l;
            }
            self.inb.drain(..at);
            self.wakers.drain(..).for_each(|w| w.wake());
            Poll::Ready(Ok(()))
        }
    }
    struct Sub {
        ph: Arc<Mutex<Phys>>,
        path: Vec<u8>,
    }
    impl AsyncRead for Sub {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Cx<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
            let mut ph = self.ph.lock().unwrap();
            loop {
                if let Some(q) = ph.queues.get_mut(&self.path) {
                    let n = q.len().min(b.len());
                    for (x, y) in b.iter_mut().zip(q.drain(..n)) {
                        *x = y
                    }
                    if n > 0 {
                        return Poll::Ready(Ok(n));
                    }
                }
                if ph.eof {
                    return Poll::Ready(Ok(0));
                }
                match ph.fill(cx) {
                    Poll::Ready(Ok(())) => {}
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => {
                        ph.wakers.push(cx.waker().clone());
                        return Poll::Pending;
                    }
                }
            }
        }
    }
    impl AsyncWrite for Sub {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Cx<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
            let mut ph = self.ph.lock().unwrap();
            if ph.out.len() > LIMIT {
                match ph.drain(cx) {
                    Poll::Ready(Ok(())) => {}
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => return Poll::Pending,
                }
            }
            ph.out.push_back(self.path.len() as u8);
            ph.out.extend(&self.path);
            ph.out.extend((b.len() as u32).to_be_bytes());
            ph.out.extend(b);
            Poll::Ready(Ok(b.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<std::io::Result<()>> {
            let mut ph = self.ph.lock().unwrap();
            match ph.drain(cx) {
                Poll::Ready(Ok(())) => Pin::new(&mut ph.s).poll_flush(cx),
                p => p,
            }
        }
        fn poll_close(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<std::io::Result<()>> {
            let mut ph = self.ph.lock().unwrap();
            match ph.drain(cx) {
                Poll::Ready(Ok(())) => Pin::new(&mut ph.s).poll_close(cx),
                p => p,
            }
        }
    }
    /// A channel of messages.
    pub struct Io {
        s: Sub,
        joins: u8,
    }
    impl std::fmt::Debug for Io {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Io")
        }
    }
    impl Io {
        /// Over a byte stream.
        pub fn from_io<T: AsyncRead + AsyncWrite + Send + Unpin + 'static>(s: T) -> Self {
            let ph = Phys { s: Box::new(s), out: Default::default(), inb: vec![], queues: Default::default(), wakers: vec![], eof: false };
            Io { s: Sub { ph: Arc::new(Mutex::new(ph)), path: vec![] }, joins: 0 }
        }
        /// Channels for tasks which run side by side.
        pub(crate) fn fork(&mut self, n: u8) -> Vec<Io> {
            self.joins = self.joins.wrapping_add(1);
            (0..n)
                .map(|i| Io { s: Sub { ph: self.s.ph.clone(), path: [&self.s.path[..], &[self.joins, i]].concat() }, joins: 0 })
                .collect()
        }
        pub(crate) async fn put_bytes(&mut self, b: &[u8]) -> std::io::Result<()> {
            let mut f = (b.len() as u32).to_be_bytes().to_vec();
            f.extend_from_slice(b);
            self.s.write_all(&f).await?;
            self.s.flush().await
        }
        pub(crate) async fn take_bytes(&mut self) -> Option<std::io::Result<Vec<u8>>> {
            let mut l = [0u8; 4];
            let mut n = 0;
            while n < 4 {
                match self.s.read(&mut l[n..]).await {
                    Ok(0) if n == 0 => return None,
                    Ok(0) => return Some(Err(std::io::ErrorKind::UnexpectedEof.into())),
                    Ok(k) => n += k,
                    Err(e) => return Some(Err(e)),
                }
            }
            let l = u32::from_be_bytes(l) as usize;
            let mut v = vec![];
            let mut b = [0u8; 8192];
            while v.len() < l {
                let want = (l - v.len()).min(b.len());
                match self.s.read(&mut b[..want]).await {
                    Ok(0) => return Some(Err(std::io::ErrorKind::UnexpectedEof.into())),
                    Ok(k) => v.extend_from_slice(&b[..k]),
                    Err(e) => return Some(Err(e)),
                }
            }
            Some(Ok(v))
        }
    }
    fn bad(e: bincode::Error) -> std::io::Error {
        std::io::Error::new(std::io::ErrorKind::InvalidData, e)
    }
    impl serio::Sink for Io {
        fn put<T: Serialize + Send>(&mut self, item: T) -> impl Future<Output = std::io::Result<()>> + Send {
            let b = bincode::serialize(&item).map_err(bad);
            drop(item);
            async move { self.put_bytes(&b?).await }
        }
    }
    impl serio::IoStream for Io {
        fn take<T: DeserializeOwned + Send>(&mut self) -> impl Future<Output = Option<std::io::Result<T>>> + Send {
            async move { Some(self.take_bytes().await?.and_then(|b| bincode::deserialize(&b).map_err(bad))) }
        }
    }
}
use io::Io;

/// Multiplexing.
pub mod mux {
    /// Opens channels by name.
    pub trait Mux: std::fmt::Debug {
        /// Opens one.
        fn open(&self, id: &[u8]) -> Result<super::io::Io, std::io::Error>;
    }
}

/// Name of a context.
#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct ContextId(Vec<u8>);
impl ContextId {
    /// Bytes.
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
}
/// Error of a context.
#[derive(Debug)]
pub struct ContextError(String);
impl std::fmt::Display for ContextError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "context: {}", self.0)
    }
}
impl std::error::Error for ContextError {}

/// A party's thread of a computation.
#[derive(Debug)]
pub struct Context {
    id: ContextId,
    io: Io,
}
type Fut<'a, T, E> = Pin<Box<dyn Future<Output = Result<T, E>> + Send + 'a>>;
impl Context {
    /// Over a channel.
    pub fn from_io(io: Io) -> Self {
        Context { id: Default::default(), io }
    }
    /// Its name.
    pub fn id(&self) -> &ContextId {
        &self.id
    }
    /// Its channel.
    pub fn io_mut(&mut self) -> &mut Io {
        &mut self.io
    }
    fn fork(&mut self, n: u8) -> Vec<Context> {
        let id = self.id.0.clone();
        let ios = self.io.fork(n);
        ios.into_iter().enumerate().map(|(i, io)| Context { id: ContextId([&id[..], &[i as u8]].concat()), io }).collect()
    }
    /// Runs two tasks side by side.
    pub async fn try_join<A, B, TA, TB, E>(&mut self, a: A, b: B) -> Result<Result<(TA, TB), E>, ContextError>
    where
        A: for<'a> FnOnce(&'a mut Context) -> Fut<'a, TA, E> + Send + 'static,
        B: for<'a> FnOnce(&'a mut Context) -> Fut<'a, TB, E> + Send + 'static,
        TA: Send + 'static,
        TB: Send + 'static,
        E: Send + 'static,
    {
        let mut c = self.fork(2);
        let [x, y] = &mut c[..] else { unreachable!() };
        Ok(futures::future::try_join(a(x), b(y)).await)
    }
    /// Runs three tasks side by side.
    pub async fn try_join3<A, B, C, TA, TB, TC, E>(&mut self, a: A, b: B, c: C) -> Result<Result<(TA, TB, TC), E>, ContextError>
    where
        A: for<'a> FnOnce(&'a mut Context) -> Fut<'a, TA, E> + Send + 'static,
        B: for<'a> FnOnce(&'a mut Context) -> Fut<'a, TB, E> + Send + 'static,
        C: for<'a> FnOnce(&'a mut Context) -> Fut<'a, TC, E> + Send + 'static,
        TA: Send + 'static,
        TB: Send + 'static,
        TC: Send + 'static,
        E: Send + 'static,
    {
        let mut v = self.fork(3);
        let [x, y, z] = &mut v[..] else { unreachable!() };
        Ok(futures::future::try_join3(a(x), b(y), c(z)).await)
    }
}

/// Runs contexts.
pub struct Executor {
    mux: Arc<dyn mux::Mux + Send + Sync>,
    next: u32,
}
impl std::fmt::Debug for Executor {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Executor")
    }
}
/// Options.
#[derive(Debug, Default)]
pub struct ExecutorBuilder;
impl ExecutorBuilder {
    /// No effect here.
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    /// Finishes.
    pub fn build<M: mux::Mux + Send + Sync + 'static>(self, mux: M) -> Executor {
        Executor { mux: Arc::new(mux), next: 0 }
    }
}
impl Executor {
    /// Options.
    pub fn builder() -> ExecutorBuilder {
        ExecutorBuilder
    }
    /// A new context.
    pub fn new_context(&mut self) -> Result<Context, ContextError> {
        let id = ContextId(self.next.to_be_bytes().to_vec());
        self.next += 1;
        let io = self.mux.open(id.as_bytes()).map_err(|e| ContextError(e.to_string()))?;
        Ok(Context { id, io })
    }
}

/// Something which exchanges messages when told.
#[async_trait]
pub trait Flush {
    /// Error.
    type Error: std::error::Error + Send + Sync + 'static;
    /// Whether there is something to exchange.
    fn wants_flush(&self) -> bool;
    /// Exchanges.
    async fn flush(&mut self, ctx: &mut Context) -> Result<(), Self::Error>;
}
/// A task.
#[async_trait]
pub trait Task {
    /// Result.
    type Output: Send;
    /// Runs.
    async fn run(self, ctx: &mut Context) -> Self::Output;
    /// Runs.
    async fn run_boxed(self: Box<Self>, ctx: &mut Context) -> Self::Output;
}
/// Results which come later.
pub mod future {
    use super::*;
    /// A result which comes later.
    pub trait Output: Future<Output = Result<Self::Ok, Self::Err>> {
        /// Value.
        type Ok;
        /// Error.
        type Err: std::error::Error + Send + Sync + 'static;
        /// The value, if it is there.
        fn try_recv(&mut self) -> Result<Option<Self::Ok>, Self::Err>;
    }
}
/// Contexts for tests.
pub mod context {
    use super::*;
    use std::{
        collections::VecDeque,
        sync::Mutex,
        task::{Context as Cx, Poll, Waker},
    };
    #[derive(Default)]
    struct Pipe {
        q: VecDeque<u8>,
        closed: bool,
        w: Option<Waker>,
    }
    /// One end of an unbounded pipe.
    pub struct End {
        r: Arc<Mutex<Pipe>>,
        w: Arc<Mutex<Pipe>>,
    }
    impl AsyncRead for End {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Cx<'_>, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
            let mut p = self.r.lock().unwrap();
            let n = p.q.len().min(b.len());
            if n == 0 && !p.closed {
                p.w = Some(cx.waker().clone());
                return Poll::Pending;
            }
            for (x, y) in b.iter_mut().zip(p.q.drain(..n)) {
                *x = y
            }
            Poll::Ready(Ok(n))
        }
    }
    impl AsyncWrite for End {
        fn poll_write(self: Pin<&mut Self>, _: &mut Cx<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> {
            let mut p = self.w.lock().unwrap();
            if p.closed {
                return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
            }
            p.q.extend(b);
            if let Some(w) = p.w.take() {
                w.wake()
            }
            Poll::Ready(Ok(b.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<std::io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<std::io::Result<()>> {
            let mut p = self.w.lock().unwrap();
            p.closed = true;
            if let Some(w) = p.w.take() {
                w.wake()
            }
            Poll::Ready(Ok(()))
        }
    }
    impl Drop for End {
        fn drop(&mut self) {
            for p in [&self.r, &self.w] {
                let mut p = p.lock().unwrap();
                p.closed = true;
                if let Some(w) = p.w.take() {
                    w.wake()
                }
            }
        }
    }
    /// Two ends of an unbounded connection.
    pub fn pipe() -> (End, End) {
        let (a, b): (Arc<Mutex<Pipe>>, Arc<Mutex<Pipe>>) = Default::default();
        (End { r: a.clone(), w: b.clone() }, End { r: b, w: a })
    }
    /// Two connected contexts.
    pub fn test_st_context(_: usize) -> (Context, Context) {
        let (a, b) = pipe();
        (Context::from_io(Io::from_io(a)), Context::from_io(Io::from_io(b)))
    }
}
