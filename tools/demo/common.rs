#![allow(dead_code)]
//! Helpers: an in-memory transport for hyper and a paused-clock runtime.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, DuplexStream, ReadBuf};

pub struct Io(pub DuplexStream, pub bool);

pub fn pair(cap: usize) -> (Io, DuplexStream) {
    let (a, b) = tokio::io::duplex(cap);
    (Io(a, false), b)
}

impl hyper::rt::Read for Io {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, mut buf: hyper::rt::ReadBufCursor<'_>) -> Poll<std::io::Result<()>> {
        let n = buf.remaining();
        let mut v = vec![0u8; n];
        let mut rb = ReadBuf::new(&mut v);
        match Pin::new(&mut self.0).poll_read(cx, &mut rb) {
            Poll::Ready(Ok(())) => {
                buf.put_slice(rb.filled());
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl hyper::rt::Write for Io {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<std::io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
        Pin::new(&mut self.0).poll_shutdown(cx)
    }
    fn is_write_vectored(&self) -> bool {
        self.1
    }
    fn poll_write_vectored(mut self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[std::io::IoSlice<'_>]) -> Poll<std::io::Result<usize>> {
        let mut v = Vec::new();
        for b in bufs {
            v.extend_from_slice(b);
        }
        Pin::new(&mut self.0).poll_write(cx, &v)
    }
}

#[derive(Clone)]
pub struct Exec;
impl<F> hyper::rt::Executor<F> for Exec
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    fn execute(&self, f: F) {
        tokio::spawn(f);
    }
}

#[derive(Clone, Debug)]
pub struct Timer;
pub struct Slp(Pin<Box<tokio::time::Sleep>>);
impl Future for Slp {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.0.as_mut().poll(cx)
    }
}
impl hyper::rt::Sleep for Slp {}
impl hyper::rt::Timer for Timer {
    fn sleep(&self, d: std::time::Duration) -> Pin<Box<dyn hyper::rt::Sleep>> {
        Box::pin(Slp(Box::pin(tokio::time::sleep(d))))
    }
    fn sleep_until(&self, at: std::time::Instant) -> Pin<Box<dyn hyper::rt::Sleep>> {
        Box::pin(Slp(Box::pin(tokio::time::sleep_until(at.into()))))
    }
    fn now(&self) -> std::time::Instant {
        tokio::time::Instant::now().into()
    }
}

/// Runs on one thread; the clock jumps when nothing else can run.
pub fn run<F: Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap().block_on(async {
        tokio::time::timeout(std::time::Duration::from_secs(100_000), f).await.expect("stalled")
    })
}
pub async fn nap(ms: u64) {
    tokio::time::sleep(std::time::Duration::from_millis(ms)).await
}
pub async fn put(s: &mut DuplexStream, b: &[u8]) {
    s.write_all(b).await.unwrap();
    nap(10).await;
}
/// Whatever arrives until nothing more comes for a while, or the end.
pub async fn drain(s: &mut DuplexStream) -> (Vec<u8>, bool) {
    let mut v = Vec::new();
    let mut b = [0u8; 4096];
    loop {
        match tokio::time::timeout(std::time::Duration::from_secs(5), s.read(&mut b)).await {
            Err(_) => return (v, false),
            Ok(Ok(0)) | Ok(Err(_)) => return (v, true),
            Ok(Ok(n)) => v.extend_from_slice(&b[..n]),
        }
    }
}
pub fn text(v: &[u8]) -> String {
    String::from_utf8_lossy(v).into_owned()
}
