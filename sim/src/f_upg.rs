//! Upgrades and tunnels (C13): HTTP/1 101 and CONNECT, HTTP/2 CONNECT (plain
//! and extended), with a hyper server, a hyper client or both; scripted
//! writers and readers at both ends of every tunnel.
use crate::body::*;
use crate::core::*;
use crate::f_h1s::{released, tokens};
use crate::f_h2p::{be32, client_builder, draw_side, frames, server_builder, settings, settled, stalemate, tell_frames, Side, PREFACE};
use crate::gen::*;
use crate::h1ref;
use crate::net::{self, *};
use hyper::rt::ReadBuf;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

const SEC: u64 = 1_000_000_000;

// ---- tunnel ends ---------------------------------------------------------------

pub trait Pipe {
    fn rd(&mut self, cx: &mut Context<'_>, max: usize) -> Poll<io::Result<Vec<u8>>>;
    fn wr(&mut self, cx: &mut Context<'_>, b: &[&[u8]]) -> Poll<io::Result<usize>>;
    fn fl(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
    fn sh(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
}
/// A transport and bytes that were read from it already.
pub struct Hy<T>(pub Vec<u8>, pub T);
impl<T: hyper::rt::Read + hyper::rt::Write + Unpin> Pipe for Hy<T> {
    fn rd(&mut self, cx: &mut Context<'_>, max: usize) -> Poll<io::Result<Vec<u8>>> {
        if !self.0.is_empty() {
            let n = max.min(self.0.len());
            return Poll::Ready(Ok(self.0.drain(..n).collect()));
        }
        let mut v = vec![0u8; max];
        let mut rb = ReadBuf::new(&mut v);
        match Pin::new(&mut self.1).poll_read(cx, rb.unfilled()) {
            Poll::Ready(Ok(())) => {
                let n = rb.filled().len();
                v.truncate(n);
                Poll::Ready(Ok(v))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
    fn wr(&mut self, cx: &mut Context<'_>, b: &[&[u8]]) -> Poll<io::Result<usize>> {
        if b.len() == 1 {
            Pin::new(&mut self.1).poll_write(cx, b[0])
        } else {
            let v: Vec<io::IoSlice<'_>> = b.iter().map(|x| io::IoSlice::new(x)).collect();
            Pin::new(&mut self.1).poll_write_vectored(cx, &v)
        }
    }
    fn fl(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.1).poll_flush(cx)
    }
    fn sh(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.1).poll_shutdown(cx)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Close {
    Shutdown,
    /// drop the whole end once everything is written
    Drop,
    /// shut down only after the peer's end is seen, or when told
    Later,
}
#[derive(Clone, Debug)]
pub struct OutChunk {
    pub data: Vec<u8>,
    pub gap: u64,
    pub vectored: bool,
    pub flush: bool,
}
#[derive(Clone, Debug)]
pub struct EndPlan {
    pub out: Vec<OutChunk>,
    pub close: Close,
    pub buf: usize,
    pub delay: u64,
    /// drop the end after this many bytes were read
    pub stop_after: Option<usize>,
    pub flush_last: bool,
}
impl EndPlan {
    fn data(&self) -> Vec<u8> {
        self.out.iter().flat_map(|c| c.data.clone()).collect()
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fin {
    Open,
    Eof,
    Err(String),
}
#[derive(Debug)]
pub struct EndLog {
    pub attached: bool,
    pub wrote: Vec<u8>,
    /// how much of it is known to have left the end
    pub flushed: usize,
    pub shut_called: bool,
    pub shut: Option<Result<(), String>>,
    pub werr: Option<String>,
    pub writer_done: bool,
    pub read: Vec<u8>,
    pub end: Fin,
    pub dropped: bool,
}
impl Default for EndLog {
    fn default() -> Self {
        EndLog { attached: false, wrote: vec![], flushed: 0, shut_called: false, shut: None, werr: None, writer_done: false, read: vec![], end: Fin::Open, dropped: false }
    }
}
pub type ELog = Rc<RefCell<EndLog>>;

struct Shared {
    io: Option<Box<dyn Pipe>>,
    /// a call is going on (with preemption: in a task below on the stack)
    busy: bool,
    /// dropped during such a call
    gone: bool,
    blocked: [bool; 2],
    wakers: [Option<Waker>; 2],
}
fn wake_both(sh: &Rc<RefCell<Shared>>) {
    let wk: Vec<Waker> = sh.borrow_mut().wakers.iter_mut().filter_map(|w| w.take()).collect();
    for w in wk {
        w.wake();
    }
}
fn let_go(sh: &Rc<RefCell<Shared>>, log: &ELog) {
    let io = sh.borrow_mut().io.take();
    if io.is_some() || sh.borrow().busy {
        sh.borrow_mut().gone = true;
        log.borrow_mut().dropped = true;
    }
    drop(io);
    wake_both(sh);
}
/// None: the end is gone.
async fn with_io<R>(sh: &Rc<RefCell<Shared>>, k: usize, mut f: impl FnMut(&mut dyn Pipe, &mut Context<'_>) -> Poll<R>) -> Option<R> {
    std::future::poll_fn(|cx| {
        if sh.borrow().gone {
            return Poll::Ready(None);
        }
        sh.borrow_mut().wakers[k] = Some(cx.waker().clone());
        // (taken out for the call: it may run other tasks)
        let Some(mut io) = sh.borrow_mut().io.take() else {
            // the other half is using it: like a lock
            sh.borrow_mut().blocked[k] = true;
            return Poll::Pending;
        };
        sh.borrow_mut().busy = true;
        let r = f(&mut *io, cx);
        let mut s = sh.borrow_mut();
        s.busy = false;
        if s.gone {
            drop(s);
            drop(io);
            return Poll::Ready(None);
        }
        s.io = Some(io);
        let other = if std::mem::take(&mut s.blocked[1 - k]) { s.wakers[1 - k].take() } else { None };
        drop(s);
        if let Some(w) = other {
            w.wake();
        }
        match r {
            Poll::Ready(x) => Poll::Ready(Some(x)),
            Poll::Pending => Poll::Pending,
        }
    })
    .await
}

/// Runs one end of a tunnel: a writer and a reader task.
pub fn run_end(name: &'static str, id: usize, group: u32, io: Box<dyn Pipe>, plan: EndPlan, log: ELog, close: Gate) {
    log.borrow_mut().attached = true;
    tr(|| format!("  {name}{id} attached"));
    let sh = Rc::new(RefCell::new(Shared { io: Some(io), busy: false, gone: false, blocked: [false; 2], wakers: [None, None] }));
    let (sh2, log2, plan2, seen) = (sh.clone(), log.clone(), plan.clone(), Gate::new());
    let seen2 = seen.clone();
    spawn_in(group, format!("{name}{id}-writer"), async move {
        let (sh, log, plan) = (sh2, log2, plan2);
        'all: for c in &plan.out {
            if c.gap > 0 {
                sleep(c.gap).await;
            }
            let mut i = 0;
            while i < c.data.len() {
                let left = &c.data[i..];
                let mid = left.len() / 2;
                let r = with_io(&sh, 0, |io, cx| {
                    if c.vectored && left.len() > 1 {
                        io.wr(cx, &[&left[..mid], &left[mid..]])
                    } else {
                        io.wr(cx, &[left])
                    }
                })
                .await;
                match r {
                    None => break 'all,
                    Some(Ok(0)) => {
                        violate("write-zero", format!("{name}{id}: a write of {} bytes returned 0", left.len()));
                        break 'all;
                    }
                    Some(Ok(n)) => {
                        tr(|| format!("  {name}{id} wrote {n} bytes"));
                        if n > left.len() {
                            violate("write-count", format!("{name}{id}: a write of {} bytes returned {n}", left.len()));
                            break 'all;
                        }
                        log.borrow_mut().wrote.extend_from_slice(&left[..n]);
                        i += n;
                    }
                    Some(Err(e)) => {
                        tr(|| format!("  {name}{id} write error {e:?}"));
                        log.borrow_mut().werr = Some(format!("{e:?}"));
                        break 'all;
                    }
                }
            }
            if c.flush {
                match with_io(&sh, 0, |io, cx| io.fl(cx)).await {
                    Some(Err(e)) => {
                        tr(|| format!("  {name}{id} flush error {e:?}"));
                        log.borrow_mut().werr = Some(format!("{e:?}"));
                        break 'all;
                    }
                    Some(Ok(())) => {
                        let mut l = log.borrow_mut();
                        l.flushed = l.wrote.len();
                    }
                    None => {}
                }
            }
        }
        log.borrow_mut().writer_done = true;
        let failed = log.borrow().werr.is_some();
        match plan.close {
            Close::Drop => {
                if let Some(Ok(())) = with_io(&sh, 0, |io, cx| io.fl(cx)).await {
                    let mut l = log.borrow_mut();
                    l.flushed = l.wrote.len();
                }
                tr(|| format!("  {name}{id} dropped after its writes"));
                let_go(&sh, &log);
                return;
            }
            Close::Later if !failed => {
                let _ = with_io(&sh, 0, |io, cx| io.fl(cx)).await;
                let (a, b) = (close.wait(), seen2.wait());
                let (mut a, mut b) = (Box::pin(a), Box::pin(b));
                std::future::poll_fn(|cx| {
                    let x = a.as_mut().poll(cx).is_ready();
                    let y = b.as_mut().poll(cx).is_ready();
                    if x || y {
                        Poll::Ready(())
                    } else {
                        Poll::Pending
                    }
                })
                .await;
            }
            _ => {}
        }
        if !failed && plan.flush_last {
            if let Some(Err(e)) = with_io(&sh, 0, |io, cx| io.fl(cx)).await {
                tr(|| format!("  {name}{id} flush error {e:?}"));
                log.borrow_mut().werr = Some(format!("{e:?}"));
            }
        }
        log.borrow_mut().shut_called = true;
        let r = with_io(&sh, 0, |io, cx| io.sh(cx)).await;
        tr(|| format!("  {name}{id} shutdown {r:?}"));
        if let Some(r) = r {
            if r.is_ok() {
                let mut l = log.borrow_mut();
                l.flushed = l.wrote.len();
            }
            log.borrow_mut().shut = Some(r.map_err(|e| format!("{e:?}")));
        }
        if log.borrow().end != Fin::Open {
            let_go(&sh, &log);
        }
    });
    spawn_in(group, format!("{name}{id}-reader"), async move {
        if plan.delay > 0 {
            sleep(plan.delay).await;
        }
        let mut total = 0;
        loop {
            if plan.stop_after.map_or(false, |n| total >= n) {
                tr(|| format!("  {name}{id} dropped by its reader"));
                let_go(&sh, &log);
                return;
            }
            match with_io(&sh, 1, |io, cx| io.rd(cx, plan.buf)).await {
                None => return,
                Some(Ok(v)) if v.is_empty() => {
                    tr(|| format!("  {name}{id} end of stream after {} bytes", log.borrow().read.len()));
                    log.borrow_mut().end = Fin::Eof;
                    break;
                }
                Some(Ok(v)) => {
                    tr(|| format!("  {name}{id} read {} bytes: {}", v.len(), shorten(&v)));
                    total += v.len();
                    log.borrow_mut().read.extend_from_slice(&v);
                }
                Some(Err(e)) => {
                    tr(|| format!("  {name}{id} read error {e:?}"));
                    log.borrow_mut().end = Fin::Err(format!("{e:?}"));
                    break;
                }
            }
        }
        seen.open();
        let s = log.borrow().shut.is_some();
        if s {
            let_go(&sh, &log);
        }
    });
}

fn gen_end(id: u32, max: usize, h2: bool) -> EndPlan {
    let n = match ww(&[1, 3, 3, 2]) {
        0 => 0,
        1 => 1,
        2 => wr(2, 4) as usize,
        _ => wr(5, 12) as usize,
    };
    let out = (0..n)
        .map(|k| {
            let len = match ww(&[3, 3, 2, 1]) {
                0 => wr(1, 10) as usize,
                1 => wr(11, 900) as usize,
                2 => wr(901, 9000) as usize,
                _ => wr(9000, 40_000) as usize,
            };
            OutChunk {
                data: content(id * 16 + k as u32, len.min(max)),
                gap: pick(&[0, 0, 0, 1000, 3_000_000]),
                vectored: wc(1, 4),
                flush: wc(1, 2),
            }
        })
        .collect();
    EndPlan {
        flush_last: !h2 || wc(1, 2),
        out,
        close: match ww(&[5, 2, 3]) {
            0 => Close::Shutdown,
            1 => Close::Drop,
            _ => Close::Later,
        },
        buf: pick(&[1usize << 16, 4096, 4096, 100, 7]),
        delay: pick(&[0, 0, 0, 2000, 50_000_000]),
        stop_after: if wc(1, 10) { Some(wr(0, 2000) as usize) } else { None },
    }
}

// ---- common --------------------------------------------------------------------

#[derive(Clone, Debug)]
struct Up {
    connect: bool,
    /// HTTP/2: with :protocol
    extended: bool,
    agreed: bool,
    status: u16,
    /// the service's body (refusals) / the request's body
    refusal: Vec<u8>,
    req_body: Vec<u8>,
    delay: u64,
    /// plain exchanges before
    pre: usize,
    /// bytes the raw side sends along with its handshake message
    glued: usize,
    /// hyper's sides take the transport out of the Upgraded
    downcast: [bool; 2],
    /// hyper's sides do not use with_upgrades()
    manual: [bool; 2],
    interim: bool,
    /// the service gives a successful HTTP/2 CONNECT a content-length of 0
    odd_len: bool,
}

#[derive(Default)]
struct Outcome {
    /// per side (0 client, 1 server), per tunnel: a waiter exists; its result
    waiting: [Vec<Option<Result<(), String>>>; 2],
    waits: [Vec<bool>; 2],
    conn: [Option<Result<(), String>>; 2],
    /// what the asking side got (status, body)
    answers: Vec<Option<Result<(u16, Vec<u8>), String>>>,
    raw: Vec<String>,
    calls: usize,
    pre_done: usize,
}
type Oc = Rc<RefCell<Outcome>>;

fn gen_up(h2: bool) -> Up {
    let connect = h2 || wc(2, 5);
    let agreed = !wc(1, 5);
    let refusal_len = wr(0, 300) as usize;
    let body_len = if !connect && wc(1, 4) { wr(1, 3000) as usize } else { 0 };
    Up {
        connect,
        extended: h2 && wc(1, 3),
        agreed,
        status: match (agreed, connect) {
            (true, true) => {
                pick(&[200, 200, 204, 299])
            }
            (true, false) => 101,
            (false, true) => pick(&[403, 502]),
            (false, false) => pick(&[200, 403, 426]),
        },
        refusal: content(900, refusal_len),
        req_body: content(901, body_len),
        delay: pick(&[0, 0, 1000, 5_000_000]),
        pre: if wc(1, 3) { wr(1, 2) as usize } else { 0 },
        glued: if wc(1, 2) { wr(1, 3) as usize } else { 0 },
        downcast: [wc(1, 3), wc(1, 3)],
        manual: [wc(1, 4), wc(1, 4)],
        interim: wc(1, 6),
        odd_len: h2 && connect && agreed && wc(1, 5),
    }
}

struct OnEnd(Rc<Cell<bool>>, Gate);
impl Drop for OnEnd {
    fn drop(&mut self) {
        self.1.open();
    }
}

fn step_body(data: &[u8]) -> SimBody {
    let steps = if data.is_empty() { vec![] } else { vec![Step::Data(data.to_vec().into(), 1)] };
    BodySpec { steps, hint: Hint::Exact, eos: true }.build("upg")
}

fn attach(side: usize, id: usize, up: hyper::upgrade::Upgraded, down: bool, plan: EndPlan, log: ELog, close: Gate) {
    let name = ["client-end", "server-end"][side];
    let io: Box<dyn Pipe> = if down {
        match up.downcast::<Sock>() {
            Ok(p) => {
                count("downcasts");
                Box::new(Hy(p.read_buf.to_vec(), p.io))
            }
            Err(_) => {
                violate("downcast", "the transport's own type was refused".into());
                return;
            }
        }
    } else {
        Box::new(Hy(vec![], up))
    };
    run_end(name, id, 6, io, plan, log, close);
}

fn wait_up(side: usize, id: usize, on: hyper::upgrade::OnUpgrade, down: bool, plan: EndPlan, log: ELog, oc: Oc, close: Gate) {
    oc.borrow_mut().waits[side][id] = true;
    spawn_in(6, ["client-waiter", "server-waiter"][side], async move {
        let r = on.await;
        tr(|| format!("  upgrade waiter of side {side} tunnel {id}: {:?}", r.as_ref().map(|_| ())));
        match r {
            Ok(u) => {
                oc.borrow_mut().waiting[side][id] = Some(Ok(()));
                attach(side, id, u, down, plan, log, close);
            }
            Err(e) => oc.borrow_mut().waiting[side][id] = Some(Err(format!("{e:?}"))),
        }
    });
}

async fn collect(body: hyper::body::Incoming) -> Result<Vec<u8>, String> {
    let mut cb = CheckedBody::new(body, "upg-in");
    let mut v = Vec::new();
    loop {
        match cb.frame().await {
            None => return Ok(v),
            Some(Ok(f)) => {
                if let Some(d) = f.data_ref() {
                    v.extend_from_slice(d);
                }
            }
            Some(Err(e)) => return Err(format!("{e:?}")),
        }
    }
}

pub fn run_family(focus: &'static str) {
    draw_knobs();
    match ww(&[3, 3, 2, 6, 2, 2]) {
        0 => h1(true, false, focus),
        1 => h1(false, true, focus),
        2 => h1(true, true, focus),
        4 => rawtun(true, focus),
        5 => rawtun(false, focus),
        _ => h2(focus),
    }
}

// ---- HTTP/1 --------------------------------------------------------------------

fn h1(hyper_server: bool, hyper_client: bool, focus: &'static str) {
    let up = gen_up(false);
    let plans = [gen_end(1, usize::MAX, false), gen_end(2, usize::MAX, false)];
    let (mut k0, mut k1) = (draw_io(), draw_io());
    let faults = wc(1, 4) || focus == "C18" && wc(1, 2);
    let killing = !faults && wc(1, 8);
    if !faults {
        k0.linger = true;
        k1.linger = true;
        k0.rst_on_drop = false;
        k1.rst_on_drop = false;
    }
    let (cs, ss) = connect("upg", k0, k1);
    let conn = cs.conn;
    with(|w| w.net.conns[conn].watch = [true, true]);
    let logs: [ELog; 2] = Default::default();
    let oc: Oc = Rc::default();
    {
        let mut o = oc.borrow_mut();
        o.waiting = [vec![None], vec![None]];
        o.waits = [vec![false], vec![false]];
        o.answers = vec![None];
    }
    let close = Gate::new();
    tr(|| format!("h1 upgrade: server {hyper_server} client {hyper_client} {up:?}"));
    let mut early = 0;
    // how the asking side's message looks
    let mut conn_tasks: [Option<usize>; 2] = [None, None];
    let mut ready0: Option<Gate> = None;
    if hyper_server {
        let (up2, oc2, plan2, log2, close2) = (up.clone(), oc.clone(), plans[1].clone(), logs[1].clone(), close.clone());
        let svc = hyper::service::service_fn(move |mut req: http::Request<hyper::body::Incoming>| {
            let (up, oc, plan, log, close) = (up2.clone(), oc2.clone(), plan2.clone(), log2.clone(), close2.clone());
            let f: std::pin::Pin<Box<dyn std::future::Future<Output = Result<_, SimErr>>>> = Box::pin(async move {
                oc.borrow_mut().calls += 1;
                if req.uri().path().starts_with("/pre") {
                    let _ = collect(req.into_body()).await;
                    return Ok::<_, SimErr>(http::Response::new(step_body(b"pre")));
                }
                tr(|| "  service called for the upgrade".into());
                let on = hyper::upgrade::on(&mut req);
                wait_up(1, 0, on, up.downcast[1], plan, log, oc.clone(), close);
                let b = collect(req.into_body()).await;
                if let Ok(b) = &b {
                    if *b != up.req_body {
                        violate("upgrade-body", format!("request body {} read as {}", shorten(&up.req_body), shorten(b)));
                    }
                }
                if up.delay > 0 {
                    sleep(up.delay).await;
                }
                let mut r = http::Response::builder().status(up.status);
                if up.agreed && !up.connect {
                    r = r.header("upgrade", "sim").header("connection", "upgrade");
                }
                Ok(r.body(if up.agreed { step_body(b"") } else { step_body(&up.refusal) }).unwrap())
            });
            f
        });
        let mut b = hyper::server::conn::http1::Builder::new();
        b.half_close(wc(1, 3)).pipeline_flush(wc(1, 6));
        if wc(1, 3) {
            b.writev(wc(1, 2));
        }
        let mut c = b.serve_connection(ss, svc);
        let (oc2, manual, plan2, log2, close2, agreed) = (oc.clone(), up.manual[1], plans[1].clone(), logs[1].clone(), close.clone(), up.agreed);
        conn_tasks[1] = Some(spawn_in(4, "server", async move {
            let r = if manual {
                let r = std::future::poll_fn(|cx| c.poll_without_shutdown(cx)).await;
                let p = c.into_parts();
                // only an agreed upgrade leaves a transport that is of use
                if r.is_ok() && agreed && matches!(oc2.borrow().waiting[1][0], None | Some(Err(_))) && oc2.borrow().waits[1][0] {
                    count("manual_upgrades");
                    run_end("server-end", 0, 6, Box::new(Hy(p.read_buf.to_vec(), p.io)), plan2, log2, close2);
                }
                r
            } else {
                c.with_upgrades().await
            };
            tr(|| format!("  server result {r:?}"));
            oc2.borrow_mut().conn[1] = Some(r.map_err(|e| format!("{e:?}")));
        }));
    } else {
        // the raw server
        let (up2, oc2, mut plan2, log2, close2) = (up.clone(), oc.clone(), plans[1].clone(), logs[1].clone(), close.clone());
        let chunked_101 = wc(1, 8);
        let cl_connect = wc(1, 4);
        let split = wr(1, 60) as usize;
        spawn_in(8, "raw-server", async move {
            let mut buf = Vec::new();
            let mut pos = 0;
            for k in 0..=up2.pre {
                let m = loop {
                    match h1ref::parse_request(&buf, pos) {
                        Ok(m) if m.complete => break m,
                        Ok(_) => {}
                        Err(e) => {
                            violate("upgrade-request", format!("the client wrote an unreadable request: {e}"));
                            return;
                        }
                    }
                    match ss.read(4096).await {
                        Ok(v) if !v.is_empty() => buf.extend(v),
                        _ => return,
                    }
                };
                pos = m.end;
                if k < up2.pre {
                    if ss.write_all(b"HTTP/1.1 200 OK\r\ncontent-length: 3\r\n\r\npre").await.is_err() {
                        return;
                    }
                    continue;
                }
                if m.body != up2.req_body {
                    violate("upgrade-body", format!("request body {} written as {}", shorten(&up2.req_body), shorten(&m.body)));
                    return;
                }
                if up2.connect != (m.start[0] == "CONNECT") || !up2.connect && !tokens(&h1ref::hmap(&m.hdrs).get("upgrade").cloned().unwrap_or_default()).contains(&"sim".to_string()) {
                    violate("upgrade-request", format!("the client wrote {:?} {:?}", m.start, m.hdrs));
                    return;
                }
                if up2.delay > 0 {
                    sleep(up2.delay).await;
                }
                let mut out = Vec::new();
                if up2.interim {
                    out.extend_from_slice(b"HTTP/1.1 103 Early Hints\r\nlink: x\r\n\r\n");
                }
                out.extend_from_slice(format!("HTTP/1.1 {} X\r\n", up2.status).as_bytes());
                if up2.agreed {
                    if !up2.connect {
                        out.extend_from_slice(b"Upgrade: sim\r\nConnection: upgrade\r\n");
                        if chunked_101 {
                            // meaningless with 101
                            out.extend_from_slice(b"content-length: 5\r\n");
                        }
                    } else if cl_connect {
                        out.extend_from_slice(b"content-length: 5\r\n");
                    }
                    out.extend_from_slice(b"\r\n");
                    // the first tunnel bytes ride along
                    let mut ride = Vec::new();
                    for _ in 0..up2.glued.min(plan2.out.len()) {
                        ride.extend(plan2.out.remove(0).data);
                    }
                    out.extend_from_slice(&ride);
                    log2.borrow_mut().attached = true;
                    let (a, b) = out.split_at(split.min(out.len()));
                    // (counted as written before: the peer may be faster)
                    log2.borrow_mut().wrote = ride;
                    if ss.write_all(a).await.is_err() || ss.write_all(b).await.is_err() {
                        {
                            let mut l = log2.borrow_mut();
                            l.werr = Some("handshake".into());
                            l.attached = !net::any_fault_fired(conn);
                            l.dropped = true;
                        }
                        return;
                    }
                    run_end("server-end", 0, 6, Box::new(Hy(buf[pos..].to_vec(), ss)), plan2, log2, close2);
                    return;
                }
                out.extend_from_slice(format!("content-length: {}\r\n\r\n", up2.refusal.len()).as_bytes());
                out.extend_from_slice(&up2.refusal);
                let _ = ss.write_all(&out).await;
                let _ = ss.shutdown().await;
                while matches!(ss.read(4096).await, Ok(v) if !v.is_empty()) {}
                oc2.borrow_mut().raw.push("refused".into());
                return;
            }
        });
    }
    if hyper_client {
        let (up2, oc2, plan2, log2, close2) = (up.clone(), oc.clone(), plans[0].clone(), logs[0].clone(), close.clone());
        let manual = up.manual[0];
        let wv = if wc(1, 3) { Some(wc(1, 2)) } else { None };
        let slot: Rc<RefCell<Option<hyper::client::conn::http1::SendRequest<SimBody>>>> = Rc::default();
        let ready = Gate::new();
        let (slot2, ready2) = (slot.clone(), ready.clone());
        // (the upgrade was agreed, the caller is done)
        let over = OnEnd(Rc::new(Cell::new(false)), Gate::new());
        let over3 = (over.0.clone(), over.1.clone());
        ready0 = Some(ready.clone());
        let (plan3, log3, close3, agreed, oc3) = (plan2.clone(), log2.clone(), close2.clone(), up.agreed, oc.clone());
        conn_tasks[0] = Some(spawn_in(1, "client", async move {
            let mut b = hyper::client::conn::http1::Builder::new();
            if let Some(v) = wv {
                b.writev(v);
            }
            let r = match b.handshake::<_, SimBody>(cs).await {
                Ok((sr, mut c)) => {
                    *slot2.borrow_mut() = Some(sr);
                    ready2.open();
                    if manual {
                        let r = std::future::poll_fn(|cx| c.poll_without_shutdown(cx)).await;
                        let p = c.into_parts();
                        let ok = r.is_ok();
                        tr(|| format!("  client result {r:?}"));
                        oc3.borrow_mut().conn[0] = Some(r.map_err(|e| format!("{e:?}")));
                        if ok && agreed {
                            // the answer may reach the caller a moment later
                            spawn_in(6, "client-takeover", async move {
                                over3.1.wait().await;
                                if over3.0.get() {
                                    count("manual_upgrades");
                                    run_end("client-end", 0, 6, Box::new(Hy(p.read_buf.to_vec(), p.io)), plan3, log3, close3);
                                }
                            });
                        }
                        return;
                    } else {
                        c.with_upgrades().await
                    }
                }
                Err(e) => {
                    ready2.open();
                    Err(e)
                }
            };
            tr(|| format!("  client result {r:?}"));
            oc3.borrow_mut().conn[0] = Some(r.map_err(|e| format!("{e:?}")));
        }));
        spawn_in(2, "caller", async move {
            let over = over;
            ready.wait().await;
            let Some(mut sr) = slot.borrow_mut().take() else { return };
            for _ in 0..up2.pre {
                if sr.ready().await.is_err() {
                    return;
                }
                match sr.send_request(http::Request::get("/pre").header("host", "sim").body(step_body(b"")).unwrap()).await {
                    Ok(r) => {
                        if collect(r.into_body()).await.is_err() {
                            return;
                        }
                        oc2.borrow_mut().pre_done += 1;
                    }
                    Err(_) => return,
                }
            }
            if sr.ready().await.is_err() {
                return;
            }
            let req = if up2.connect {
                http::Request::builder().method("CONNECT").uri("sim.example:80").header("host", "sim.example:80")
            } else {
                http::Request::builder().method(if up2.req_body.is_empty() { "GET" } else { "POST" }).uri("/up").header("host", "sim").header("upgrade", "sim").header("connection", "upgrade")
            };
            let r = sr.send_request(req.body(step_body(&up2.req_body)).unwrap()).await;
            match r {
                Err(e) => {
                    tr(|| format!("  caller: {e:?}"));
                    oc2.borrow_mut().answers[0] = Some(Err(format!("{e:?}")));
                }
                Ok(mut r) => {
                    let st = r.status().as_u16();
                    tr(|| format!("  caller: answered {st}"));
                    over.0.set(st == up2.status && up2.agreed);
                    let on = hyper::upgrade::on(&mut r);
                    wait_up(0, 0, on, up2.downcast[0], plan2, log2, oc2.clone(), close2);
                    let b = if st == 101 || up2.connect && (200..300).contains(&st) {
                        if !r.body().is_end_stream_() {
                            violate("upgrade-response-body", "an agreed upgrade has a body that is not at its end".into());
                        }
                        Ok(vec![])
                    } else {
                        collect(r.into_body()).await
                    };
                    oc2.borrow_mut().answers[0] = Some(b.map(|b| (st, b)));
                }
            }
        });
    } else {
        // the raw client
        let (up2, oc2, mut plan2, log2, close2) = (up.clone(), oc.clone(), plans[0].clone(), logs[0].clone(), close.clone());
        let together = wc(1, 2);
        let split = wr(1, 120) as usize;
        let mut out = Vec::new();
        for _ in 0..up2.pre {
            out.extend_from_slice(b"GET /pre HTTP/1.1\r\nhost: sim\r\n\r\n");
        }
        if up2.connect {
            out.extend_from_slice(b"CONNECT sim.example:80 HTTP/1.1\r\nhost: sim.example:80\r\n\r\n");
        } else {
            out.extend_from_slice(if up2.req_body.is_empty() { b"GET /up HTTP/1.1\r\n" } else { &b"POST /up HTTP/1.1\r\n"[..] });
            out.extend_from_slice(b"host: sim\r\nUpgrade: sim\r\nConnection: upgrade\r\n");
            if up2.req_body.is_empty() {
                out.extend_from_slice(b"\r\n");
            } else if together {
                out.extend_from_slice(format!("content-length: {}\r\n\r\n", up2.req_body.len()).as_bytes());
                out.extend_from_slice(&up2.req_body);
            } else {
                out.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
                write_chunked(&mut out, &up2.req_body, &vec![]);
            }
        }
        let mut ride = Vec::new();
        if up2.agreed {
            for _ in 0..up2.glued.min(plan2.out.len()) {
                ride.extend(plan2.out.remove(0).data);
            }
        }
        out.extend_from_slice(&ride);
        early = ride.len();
        log2.borrow_mut().wrote = ride;
        let cs = Rc::new(cs);
        let cs2 = cs.clone();
        let sent = Gate::new();
        let (sent2, log4) = (sent.clone(), log2.clone());
        spawn_in(8, "raw-client-writer", async move {
            let (a, b) = out.split_at(split.min(out.len()));
            if cs2.write_all(a).await.is_err() || cs2.write_all(b).await.is_err() {
                log4.borrow_mut().werr = Some("handshake".into());
            }
            drop(cs2);
            sent2.open();
        });
        spawn_in(8, "raw-client", async move {
            let mut buf = Vec::new();
            let mut pos = 0;
            for k in 0..=up2.pre {
                let last = k == up2.pre;
                let method = if last && up2.connect { "CONNECT" } else { "GET" };
                let m = loop {
                    match h1ref::parse_response(&buf, pos, method, false) {
                        Ok(m) if m.complete => break m,
                        Ok(_) => {}
                        Err(e) => {
                            violate("upgrade-response", format!("the server wrote an unreadable response: {e}"));
                            return;
                        }
                    }
                    match cs.read(4096).await {
                        Ok(v) if !v.is_empty() => buf.extend(v),
                        _ => return,
                    }
                };
                pos = m.end;
                if !last {
                    oc2.borrow_mut().pre_done += 1;
                    continue;
                }
                let st = m.status();
                oc2.borrow_mut().answers[0] = Some(Ok((st, m.body.clone())));
                if !up2.agreed {
                    sent.wait().await;
                    let _ = cs.shutdown().await;
                    while matches!(cs.read(4096).await, Ok(v) if !v.is_empty()) {}
                    return;
                }
                let h = h1ref::hmap(&m.hdrs);
                if h.contains_key("content-length") || h.contains_key("transfer-encoding") {
                    violate("upgrade-response", format!("a {st} that opens a tunnel says {}", h1ref::show_hmap(&h)));
                }
                sent.wait().await;
                let cs = Rc::try_unwrap(cs).expect("writer still there");
                run_end("client-end", 0, 6, Box::new(Hy(buf[pos..].to_vec(), cs)), plan2, log2, close2);
                return;
            }
        });
    }
    if faults {
        let d = wd(2) as usize;
        let at = if wc(1, 2) { wd(400) } else { wd(6000) };
        let kind = pick(&[Fault::Eof, Fault::Reset]);
        plan_fault(conn, d, at as u64, kind);
        tr(|| format!("planned {kind:?} at byte {at} of dir {d}"));
    }
    net::arm(conn);
    let kill_at = if killing { Some((sd(60) as u64, sd(2) as usize)) } else { None };
    let killed = Rc::new(RefCell::new(false));
    let k2 = killed.clone();
    let start = with(|w| w.steps);
    let stop = move || {
        if let Some((at, who)) = kill_at {
            if with(|w| w.steps) - start >= at && !*k2.borrow() {
                *k2.borrow_mut() = true;
                if let Some(t) = conn_tasks[who].or(conn_tasks[1 - who]) {
                    count("conn_dropped");
                    kill(t);
                    if let Some(r) = &ready0 {
                        r.open();
                    }
                }
            }
        }
        false
    };
    let lim = || Limits { max_steps: 400_000, horizon: 3600 * SEC };
    let end = run(lim(), stop);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 1 ended with {end:?}"));
        return;
    }
    for phase in 0..2 {
        let calm = !net::any_fault_fired(conn) && !*killed.borrow() && !with(|w| w.stats.contains_key("rst_on_drop"));
        judge_waiters(&oc, 0, up.agreed, calm, [hyper_client, hyper_server], up.manual, up.agreed, phase == 1);
        if violated() {
            return;
        }
        if calm {
            let o = oc.borrow();
            match &o.answers[0] {
                Some(Ok((st, b))) => {
                    if *st != up.status || !up.agreed && *b != up.refusal {
                        violate("upgrade-answer", format!("expected {} {} got {st} {}", up.status, shorten(&up.refusal), shorten(b)));
                        return;
                    }
                }
                x => {
                    violate("upgrade-answer", format!("expected {} got {x:?}", up.status));
                    return;
                }
            }
            if up.agreed && !(logs[0].borrow().attached && logs[1].borrow().attached) {
                violate("upgrade-stuck", format!("an agreed upgrade was not handed over (client {}, server {})", logs[0].borrow().attached, logs[1].borrow().attached));
                return;
            }
        }
        judge_tunnel(0, &logs, &plans, calm, false, phase == 1, |x| fault_fired(conn, x, |f| matches!(f, Fault::Eof)), early);
        if violated() {
            return;
        }
        for side in 0..2 {
            let t = conn_tasks[side];
            if let Some(t) = t {
                // handing over ends the connection future
                if calm && up.agreed && !task_done(t) {
                    violate("conn-never-ends", format!("side {side}: the upgrade is done but the connection future is not"));
                    return;
                }
                if calm && up.agreed && !matches!(oc.borrow().conn[side], Some(Ok(()))) {
                    violate("conn-error", format!("side {side}: agreed upgrade but the connection ended with {:?}", oc.borrow().conn[side]));
                    return;
                }
            }
        }
        if phase == 0 {
            close.open();
            let end = run(lim(), || false);
            if violated() {
                return;
            }
            if end != End::Quiescent {
                violate("no-progress", format!("phase 2 ended with {end:?}"));
                return;
            }
        }
    }
    for (side, g) in [(0, 1), (1, 4)] {
        if let Some(t) = conn_tasks[side] {
            released(t, conn, side, &[g]);
        }
    }
}

trait EndStream {
    fn is_end_stream_(&self) -> bool;
}
impl EndStream for hyper::body::Incoming {
    fn is_end_stream_(&self) -> bool {
        use hyper::body::Body;
        self.is_end_stream()
    }
}

/// Waiters resolve, with a transport only if both sides agreed.
#[allow(clippy::too_many_arguments)]
fn judge_waiters(oc: &Oc, id: usize, agreed: bool, calm: bool, hyper: [bool; 2], manual: [bool; 2], seen: bool, last: bool) {
    let _ = seen;
    let o = oc.borrow();
    for side in 0..2 {
        if !hyper[side] {
            continue;
        }
        match &o.waiting[side][id] {
            Some(Ok(())) => {
                if !agreed || manual[side] {
                    violate("upgrade-not-agreed", format!("side {side} tunnel {id}: the waiter got a transport though the upgrade was not agreed"));
                    return;
                }
            }
            Some(Err(e)) => {
                if calm && agreed && !manual[side] {
                    violate("upgrade-lost", format!("side {side} tunnel {id}: agreed but the waiter got {e}"));
                    return;
                }
            }
            None => {
                if o.waits[side][id] && (calm || last) {
                    violate("upgrade-waiter-stuck", format!("side {side} tunnel {id}: the waiter is still pending at quiescence"));
                    return;
                }
                if calm && agreed {
                    violate("upgrade-stuck", format!("side {side} tunnel {id}: no upgrade at quiescence"));
                    return;
                }
            }
        }
    }
}

/// What each end read against what the other wrote.
#[allow(clippy::too_many_arguments)]
fn judge_tunnel(id: usize, logs: &[ELog; 2], plans: &[EndPlan; 2], calm: bool, h2: bool, last: bool, cut: impl Fn(usize) -> bool, early: usize) {
    let _ = early;
    for x in 0..2 {
        let y = 1 - x;
        let (a, b) = (logs[x].borrow(), logs[y].borrow());
        let who = format!("tunnel {id}, {} to {}", ["client", "server"][x], ["client", "server"][y]);
        if !b.attached {
            continue;
        }
        if !plans[x].data().starts_with(&a.wrote) {
            violate("harness", format!("{who}: wrote something else"));
            return;
        }
        if !a.wrote.starts_with(&b.read) {
            let n = a.wrote.iter().zip(b.read.iter()).take_while(|(p, q)| p == q).count();
            violate("tunnel-bytes", format!("{who}: wrote {} bytes, read {}; they differ from byte {n}: {} / {}", a.wrote.len(), b.read.len(), shorten(&a.wrote[n.min(a.wrote.len())..]), shorten(&b.read[n..])));
            return;
        }
        if b.end == Fin::Eof {
            let orderly = a.shut_called || a.dropped;
            // (what is not flushed when a transport is dropped is gone)
            let must = if h2 || !a.dropped { a.wrote.len() } else { a.flushed };
            if !cut(x) && (!orderly || b.read.len() < must) && (h2 || calm) {
                violate("tunnel-truncated", format!("{who}: an orderly end after {} of {} bytes (shutdown {}, dropped {})", b.read.len(), a.wrote.len(), a.shut_called, a.dropped));
                return;
            }
        }
        if let Fin::Err(e) = &b.end {
            // (once an end is dropped its data may be lost with a reset)
            if calm && !(b.werr.is_some()) {
                violate("tunnel-error", format!("{who}: nothing failed but the reader got {e} after {} of {} bytes", b.read.len(), a.wrote.len()));
                return;
            }
        }
        if let Some(e) = &a.werr {
            if calm && !b.dropped {
                violate("tunnel-write-error", format!("{who}: nothing failed but a write got {e}"));
                return;
            }
        }
        if calm && !b.dropped {
            // the reader reads: all that was accepted has arrived, and nothing waits
            let want = plans[x].data();
            if a.werr.is_none() && !a.dropped && a.wrote.len() < want.len() {
                violate("tunnel-stuck", format!("{who}: the writer is stuck after {} of {} bytes", a.wrote.len(), want.len()));
                return;
            }
            if b.read.len() < a.wrote.len() && b.end == Fin::Open {
                violate("tunnel-stuck", format!("{who}: {} of {} bytes have arrived at quiescence", b.read.len(), a.wrote.len()));
                return;
            }
            if (a.shut_called || a.dropped) && b.end == Fin::Open {
                violate("tunnel-stuck", format!("{who}: closed (shutdown {:?}, dropped {}) but the reader sees no end", a.shut, a.dropped));
                return;
            }
            if a.shut_called && !a.dropped && a.shut.is_none() {
                violate("tunnel-stuck", format!("{who}: shutdown does not finish"));
                return;
            }
            if let Some(Err(e)) = &a.shut {
                if a.werr.is_none() {
                    violate("tunnel-shutdown-error", format!("{who}: nothing failed but shutdown got {e}"));
                    return;
                }
            }
        }
        if last && !b.dropped && b.end == Fin::Open && a.attached {
            violate("tunnel-never-ends", format!("{who}: the reader is still waiting at the end"));
            return;
        }
        if last && !b.dropped && b.end == Fin::Open && !a.attached && h2 {
            violate("tunnel-never-ends", format!("{who}: the reader is still waiting though its peer never came"));
            return;
        }
    }
    if last {
        for x in 0..2 {
            if logs[x].borrow().attached && !logs[x].borrow().dropped {
                violate("tunnel-never-ends", format!("tunnel {id}: the {} end is not over at the end: {:?}", ["client", "server"][x], logs[x].borrow().end));
                return;
            }
        }
    }
}

// ---- HTTP/2 --------------------------------------------------------------------

fn h2(focus: &'static str) {
    let (mut cs, mut ss): (Side, Side) = (draw_side(focus, true), draw_side(focus, false));
    // many times the window through one tunnel, read in small pieces
    let heavy = wc(1, 6);
    if heavy {
        for s in [&mut cs, &mut ss] {
            s.adaptive = false;
            s.sw = Some(pick(&[5_000, 5_000, 65_535]));
            s.cw = pick(&[None, Some(65_535)]);
            s.send_buf = pick(&[None, Some(5_000)]);
        }
    }
    let minw = cs.stream_window().min(ss.stream_window()) as usize;
    let minb = cs.send_buf.unwrap_or(1 << 20).min(ss.send_buf.unwrap_or(1 << 20));
    let max = (minw.min(minb.max(50)) * 100).max(300);
    let n = 1 + ww(&[4, 2, 1]);
    let mut ups: Vec<Up> = (0..n).map(|_| gen_up(true)).collect();
    if let Some(m) = ss.mcs {
        // (refused streams are another family's business)
        ups.truncate((m as usize).max(1));
    }
    let n = ups.len();
    let mut plans: Vec<[EndPlan; 2]> = (0..n as u32).map(|i| [gen_end(i * 2 + 1, max, true), gen_end(i * 2 + 2, max, true)]).collect();
    if heavy {
        let big = minw * wr(3, 8) as usize;
        let x = wd(2) as usize;
        let mut out = vec![];
        let mut sum = 0;
        while sum < big {
            let len = pick(&[3000usize, 9000, 17_000, 40_000]).min(big);
            sum += len;
            out.push(OutChunk { data: content(40 + out.len() as u32, len), gap: pick(&[0, 0, 0, 1000]), vectored: wc(1, 4), flush: wc(1, 3) });
        }
        plans[0][x].out = out;
        plans[0][1 - x].stop_after = None;
        plans[0][1 - x].buf = pick(&[4096usize, 1000, 300]);
        if plans[0][1 - x].close == Close::Drop {
            plans[0][1 - x].close = Close::Later;
        }
        count("heavy_tunnels");
    }
    let (mut k0, mut k1) = (draw_io(), draw_io());
    for k in [&mut k0, &mut k1] {
        k.cap = k.cap.max(64);
        k.latency = k.latency.min(500_000);
    }
    let faults = wc(1, 5) || focus == "C18" && wc(1, 2);
    let killing = !faults && wc(1, 8);
    if !faults {
        for k in [&mut k0, &mut k1] {
            k.rst_on_drop = false;
            k.linger = true;
        }
    }
    let (csock, ssock) = connect("upg2", k0, k1);
    let conn = csock.conn;
    let oc: Oc = Rc::default();
    {
        let mut o = oc.borrow_mut();
        o.waiting = [vec![None; n], vec![None; n]];
        o.waits = [vec![false; n], vec![false; n]];
        o.answers = vec![None; n];
    }
    let logs: Vec<[ELog; 2]> = (0..n).map(|_| Default::default()).collect();
    let close = Gate::new();
    tr(|| format!("h2 tunnels {ups:?}"));
    // -- server
    let (ups2, oc2, logs2, plans2, close2) = (ups.clone(), oc.clone(), logs.clone(), plans.clone(), close.clone());
    let svc = hyper::service::service_fn(move |mut req: http::Request<hyper::body::Incoming>| {
        let id: usize = req.uri().host().and_then(|h| h.strip_prefix("sim")).and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
        let (oc, close) = (oc2.clone(), close2.clone());
        let x = ups2.get(id).cloned().map(|u| (u, plans2[id][1].clone(), logs2[id][1].clone()));
        async move {
            let Some((up, plan, log)) = x else {
                violate("unknown-request", format!("service called for {} {}", req.method(), req.uri()));
                return Err(SimErr("unknown"));
            };
            oc.borrow_mut().calls += 1;
            tr(|| format!("  service called for tunnel {id}"));
            let proto = req.extensions().get::<hyper::ext::Protocol>().map(|p| p.as_str().to_string());
            if req.method() != "CONNECT" || proto.as_deref() != if up.extended { Some("sim") } else { None } {
                violate("upgrade-request", format!("tunnel {id}: service got {} {} {proto:?}", req.method(), req.uri()));
            }
            let on = hyper::upgrade::on(&mut req);
            wait_up(1, id, on, false, plan, log, oc.clone(), close);
            if up.delay > 0 {
                sleep(up.delay).await;
            }
            let mut r = http::Response::builder().status(up.status);
            if up.odd_len {
                r = r.header("content-length", "0");
            }
            Ok(r.body(if up.agreed { step_body(b"") } else { step_body(&up.refusal) }).unwrap())
        }
    });
    let mut b = server_builder(&ss);
    b.enable_connect_protocol();
    let c = b.serve_connection(ssock, svc);
    let oc2 = oc.clone();
    let server_task = spawn_in(4, "server", async move {
        let r = c.await;
        tr(|| format!("  server result {r:?}"));
        oc2.borrow_mut().conn[1] = Some(r.map_err(|e| format!("{e:?}")));
    });
    // -- client
    let slot: Rc<RefCell<Option<hyper::client::conn::http2::SendRequest<SimBody>>>> = Rc::default();
    let ready = Gate::new();
    let ready0 = ready.clone();
    let (slot2, ready2, oc2) = (slot.clone(), ready.clone(), oc.clone());
    let b = client_builder(&cs);
    let client_task = spawn_in(1, "client", async move {
        let r = match b.handshake::<_, SimBody>(csock).await {
            Ok((sr, c)) => {
                *slot2.borrow_mut() = Some(sr);
                ready2.open();
                c.await
            }
            Err(e) => {
                ready2.open();
                Err(e)
            }
        };
        tr(|| format!("  client result {r:?}"));
        oc2.borrow_mut().conn[0] = Some(r.map_err(|e| format!("{e:?}")));
    });
    let keep = Gate::new();
    let drop_early = wc(1, 3);
    let (ups2, oc2, logs2, plans2, close2, keep2) = (ups.clone(), oc.clone(), logs.clone(), plans.clone(), close.clone(), keep.clone());
    let gaps: Vec<u64> = (0..n).map(|_| pick(&[0, 0, 1_000_000])).collect();
    spawn_in(2, "caller", async move {
        ready.wait().await;
        let Some(mut sr) = slot.borrow_mut().take() else { return };
        settled(conn).await;
        for (id, up) in ups2.iter().enumerate() {
            if gaps[id] > 0 {
                sleep(gaps[id]).await;
            }
            if sr.ready().await.is_err() {
                return;
            }
            let mut req = if up.extended {
                http::Request::builder().method("CONNECT").uri(format!("http://sim{id}/chat")).body(step_body(b"")).unwrap()
            } else {
                http::Request::builder().method("CONNECT").uri(format!("sim{id}:80")).body(step_body(b"")).unwrap()
            };
            if up.extended {
                req.extensions_mut().insert(hyper::ext::Protocol::from_static("sim"));
            }
            let f = sr.send_request(req);
            let up_len = up.odd_len;
            let (oc, log, plan, close) = (oc2.clone(), logs2[id][0].clone(), plans2[id][0].clone(), close2.clone());
            spawn_in(2, format!("outcome{id}"), async move {
                match f.await {
                    Err(e) => {
                        tr(|| format!("  tunnel {id}: {e:?}"));
                        oc.borrow_mut().answers[id] = Some(Err(format!("{e:?}")));
                    }
                    Ok(mut r) => {
                        let st = r.status().as_u16();
                        tr(|| format!("  tunnel {id}: answered {st}"));
                        if up_len && r.headers().contains_key("content-length") {
                            violate("upgrade-response", format!("tunnel {id}: the {st} that opens it has a content-length"));
                        }
                        let on = hyper::upgrade::on(&mut r);
                        wait_up(0, id, on, false, plan, log, oc.clone(), close);
                        let b = if (200..300).contains(&st) { Ok(vec![]) } else { collect(r.into_body()).await };
                        oc.borrow_mut().answers[id] = Some(b.map(|b| (st, b)));
                    }
                }
            });
        }
        if !drop_early {
            keep2.wait().await;
        }
        drop(sr);
        tr(|| "  handle dropped".into());
    });
    if faults {
        let d = wd(2) as usize;
        let at = if wc(1, 2) { wd(600) } else { wd(20_000) };
        let kind = pick(&[Fault::Eof, Fault::Reset]);
        plan_fault(conn, d, at as u64, kind);
        tr(|| format!("planned {kind:?} at byte {at} of dir {d}"));
    }
    net::arm(conn);
    let kill_at = if killing { Some((sd(300) as u64, sd(2))) } else { None };
    let killed = Rc::new(RefCell::new(false));
    let k2 = killed.clone();
    let start = with(|w| w.steps);
    let stop = move || {
        if let Some((at, who)) = kill_at {
            if with(|w| w.steps) - start >= at && !*k2.borrow() {
                *k2.borrow_mut() = true;
                count("conn_dropped");
                if who == 0 {
                    kill(server_task);
                } else {
                    kill_group(3);
                    kill(client_task);
                    ready0.open();
                }
            }
        }
        false
    };
    let lim = || Limits { max_steps: 600_000, horizon: 3600 * SEC };
    let end = run(lim(), stop);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 1 ended with {end:?}"));
        return;
    }
    for phase in 0..2 {
        if stalemate(conn) {
            return;
        }
        let (o0, o1) = (dir(conn, 0, |d| d.written.clone()), dir(conn, 1, |d| d.written.clone()));
        let (f0, f1) = (frames(&o0, PREFACE.len()), frames(&o1, 0));
        tell_frames(&f0, &o0, "client");
        tell_frames(&f1, &o1, "server");
        let calmed = [(&f0, &o0), (&f1, &o1)].iter().any(|(fs, o)| fs.iter().any(|f| f.kind == 7 && be32(&o[f.off + 4..]) == 11));
        if calmed {
            count("enhance_your_calm");
        }
        let gone = (0..2).any(|d| dir(conn, d, |x| x.werr_seen) && dir(conn, 1 - d, |x| x.shutdown_called));
        let calm = !net::any_fault_fired(conn) && !*killed.borrow() && !calmed && !gone && !with(|w| w.stats.contains_key("rst_on_drop"));
        for id in 0..n {
            let up = &ups[id];
            judge_waiters(&oc, id, up.agreed, calm, [true, true], [false, false], up.agreed, phase == 1);
            if violated() {
                return;
            }
            if calm {
                match &oc.borrow().answers[id] {
                    Some(Ok((st, b))) => {
                        if *st != up.status || !up.agreed && *b != up.refusal {
                            violate("upgrade-answer", format!("tunnel {id}: expected {} {} got {st} {}", up.status, shorten(&up.refusal), shorten(b)));
                            return;
                        }
                    }
                    x => {
                        violate("upgrade-answer", format!("tunnel {id}: expected {} got {x:?}", up.status));
                        return;
                    }
                }
            }
            // (an end dropped before its peer's end resets the stream, which
            // discards what was not yet sent, and reads as an end of stream)
            let cut = |x: usize| {
                let (fs, o) = [(&f0, &o0), (&f1, &o1)][x];
                let l = logs[id][x].borrow();
                l.dropped && l.end == Fin::Open && fs.iter().any(|f| f.kind == 3 && f.sid == 1 + 2 * id as u32 && matches!(be32(&o[f.off..]), 0 | 8))
            };
            judge_tunnel(id, &logs[id], &plans[id], calm, true, phase == 1, cut, 0);
            if violated() {
                return;
            }
            // what the reader of a tunnel took is given back to the writer
            for x in 0..2 {
                let (a, b) = (logs[id][x].borrow(), logs[id][1 - x].borrow());
                if !calm || phase > 0 || !a.attached || !b.attached || a.dropped || b.dropped || b.end != Fin::Open || b.read.len() != a.wrote.len() || a.shut_called {
                    continue;
                }
                if [&cs, &ss][1 - x].adaptive {
                    continue;
                }
                let sid = 1 + 2 * id as u32;
                let (mine, theirs) = ([&f0, &f1][x], [&f1, &f0][x]);
                let to = [&o1, &o0][x];
                let mut target = 65_535i64;
                for f in theirs.iter().filter(|f| f.kind == 4 && f.flags & 1 == 0) {
                    for (k, v) in settings(to, f) {
                        if k == 4 {
                            target = v as i64;
                        }
                    }
                }
                let updates: i64 = theirs.iter().filter(|f| f.kind == 8 && f.sid == sid).map(|f| be32(&to[f.off..]) as i64).sum();
                let sent: i64 = mine.iter().filter(|f| f.kind == 0 && f.sid == sid).map(|f| f.len as i64).sum();
                if target + updates - sent < target / 2 {
                    violate("tunnel-window-leak", format!("tunnel {id}, {}: all {sent} bytes were read but only {} of a window of {target} is left", ["client to server", "server to client"][x], target + updates - sent));
                    return;
                }
                if sent > target {
                    count("tunnel_windows_reused");
                }
            }
        }
        if phase == 0 {
            close.open();
            keep.open();
            let end = run(lim(), || false);
            if violated() {
                return;
            }
            if end != End::Quiescent {
                violate("no-progress", format!("phase 2 ended with {end:?}"));
                return;
            }
        }
    }
    // (a finding of its own: see known-findings.json)
    let outs = [dir(conn, 0, |d| d.written.clone()), dir(conn, 1, |d| d.written.clone())];
    let open = |x: usize, id: usize| {
        let fs = frames(&outs[x], [PREFACE.len(), 0][x]);
        !fs.iter().any(|f| f.sid == 1 + 2 * id as u32 && (f.kind == 3 || f.kind <= 1 && f.flags & 1 != 0))
    };
    // (side x has used up what the other side ever granted it on the stream)
    let exhausted = |x: usize, id: usize| {
        let (mine, theirs) = (frames(&outs[x], [PREFACE.len(), 0][x]), frames(&outs[1 - x], [0, PREFACE.len()][x]));
        let sid = 1 + 2 * id as u32;
        let mut granted = 65_535i64;
        for f in theirs.iter().filter(|f| f.kind == 4 && f.flags & 1 == 0) {
            for (k, v) in settings(&outs[1 - x], f) {
                if k == 4 {
                    granted = v as i64;
                }
            }
        }
        granted += theirs.iter().filter(|f| f.kind == 8 && f.sid == sid).map(|f| be32(&outs[1 - x][f.off..]) as i64).sum::<i64>();
        let sent: i64 = mine.iter().filter(|f| f.kind == 0 && f.sid == sid).map(|f| f.len as i64).sum();
        sent >= granted && (sent as usize) < logs[id][x].borrow().wrote.len()
    };
    for id in 0..n {
        if (0..2).all(|x| logs[id][x].borrow().dropped && open(x, id) && exhausted(x, id)) && !task_done(server_task) {
            violate("dropped-tunnel-stuck", format!("tunnel {id}: both ends were dropped with data waiting for the other's window; the stream and the connection never end"));
            return;
        }
    }
    released(client_task, conn, 0, &[1, 2, 3]);
    if violated() {
        return;
    }
    released(server_task, conn, 1, &[4, 5]);
}

// ---- HTTP/2, one end written frame by frame ------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum RawEnd {
    /// END_STREAM with the last bytes
    Last,
    /// END_STREAM on an empty frame
    Empty,
    /// END_STREAM once the other direction is over, or when told
    Later,
    Reset(u32),
}
#[derive(Clone, Debug)]
struct RawTun {
    sends: Vec<(Vec<u8>, u64)>,
    end: RawEnd,
    end_gap: u64,
    /// nothing is given back to the stream for this long
    hold: u64,
    /// the raw server answers after this
    delay: u64,
    status: u16,
    extended: bool,
    noise: bool,
}
#[derive(Default, Clone, Debug)]
struct RawLog {
    sent: usize,
    ended: bool,
    reset: Option<u32>,
    opened: bool,
    over: bool,
}

fn rawtun(hyper_server: bool, focus: &'static str) {
    use crate::h2raw::{self, field, Peer, Policy};
    let side = draw_side(focus, !hyper_server);
    let window = pick(&[65_535u32, 65_535, 1 << 20, 1000, 5_000, 1]);
    let n = 1 + ww(&[4, 2, 1]);
    let n = if hyper_server { n.min(side.mcs.unwrap_or(10).max(1) as usize) } else { n };
    let max = ((side.stream_window().min(window) as usize).min(side.send_buf.unwrap_or(1 << 20).max(50)) * 100).max(300);
    let mut tuns: Vec<RawTun> = Vec::new();
    let mut plans: Vec<EndPlan> = Vec::new();
    let tight = side.stream_window() < 22_000 || side.adaptive;
    for i in 0..n as u32 {
        let k = match ww(&[1, 3, 3]) {
            0 => 0,
            1 => wr(1, 3),
            _ => wr(4, 12),
        };
        let sends: Vec<(Vec<u8>, u64)> = (0..k)
            .map(|j| {
                let len = match ww(&[2, 3, 3, 1, 1]) {
                    0 => 0,
                    1 => wr(1, 10) as usize,
                    2 => wr(11, 900) as usize,
                    3 => wr(901, 9000) as usize,
                    _ => wr(9000, 40_000) as usize,
                };
                (content(i * 32 + j, len.min(max)), pick(&[0, 0, 0, 1000, 2_000_000]))
            })
            .collect();
        let end = match ww(&[3, 3, 4, 5]) {
            0 if sends.last().is_some_and(|s| !s.0.is_empty()) => RawEnd::Last,
            0 | 1 => RawEnd::Empty,
            2 => RawEnd::Later,
            _ => RawEnd::Reset(pick(&[0u32, 8, 2, 5, 1, 7, 11, 10, 0x99])),
        };
        tuns.push(RawTun {
            sends,
            end,
            end_gap: pick(&[0u64, 0, 1000, 5_000_000]),
            hold: if wc(1, 4) { pick(&[1_000_000u64, 80_000_000]) } else { 0 },
            delay: pick(&[0u64, 0, 1_000_000]),
            status: pick(&[200u16, 200, 204, 299]),
            extended: hyper_server && wc(1, 3),
            noise: wc(1, 3),
        });
        plans.push(gen_end(16 + i, max, true));
    }
    let (mut k0, mut k1) = (draw_io(), draw_io());
    for k in [&mut k0, &mut k1] {
        k.cap = k.cap.max(4096);
        k.latency = k.latency.min(500_000);
        k.rst_on_drop = false;
        k.linger = true;
        k.buffered = false;
    }
    let abrupt = wc(1, 6);
    let policy = Policy { batch: pick(&[1i64, 1, 1000]), delay: pick(&[0u64, 0, 100_000]), ack_settings_after: if tight || tuns.iter().flat_map(|t| &t.sends).map(|s| s.0.len() + 1000).sum::<usize>() > 60_000 { 0 } else { pick(&[0u64, 0, 2_000_000]) } };
    tr(|| format!("raw tunnel: hyper is the {} side {side:?} window {window}", if hyper_server { "server" } else { "client" }));
    for (t, p) in tuns.iter().zip(&plans) {
        tr(|| format!("  raw sends {:?} then {:?} after {} hold {} | hyper end writes {:?} then {:?} reads by {} after {} stop {:?}", t.sends.iter().map(|s| (s.0.len(), s.1)).collect::<Vec<_>>(), t.end, t.end_gap, t.hold, p.out.iter().map(|c| c.data.len()).collect::<Vec<_>>(), p.close, p.buf, p.delay, p.stop_after));
    }
    let (csock, ssock) = connect("rawtun", k0, k1);
    let conn = csock.conn;
    let hy = hyper_server as usize;
    with(|w| w.net.conns[conn].watch[1 - hy] = false);
    let oc: Oc = Rc::default();
    {
        let mut o = oc.borrow_mut();
        o.waiting = [vec![None; n], vec![None; n]];
        o.waits = [vec![false; n], vec![false; n]];
        o.answers = vec![None; n];
    }
    let logs: Vec<ELog> = (0..n).map(|_| Default::default()).collect();
    let raws: Rc<RefCell<Vec<RawLog>>> = Rc::new(RefCell::new(vec![Default::default(); n]));
    let close = Gate::new();
    let conn_task;
    let peer;
    let script = {
        let (raws, close) = (raws.clone(), close.clone());
        move |peer: Peer, i: usize, t: RawTun| {
            let (raws, close) = (raws.clone(), close.clone());
            let sid = 1 + 2 * i as u32;
            raws.borrow_mut()[i].opened = true;
            spawn_in(8, format!("raw-tunnel{i}"), async move {
                if t.hold > 0 {
                    peer.touch(sid);
                    peer.st.borrow_mut().streams.get_mut(&sid).unwrap().hold = true;
                    let p2 = peer.clone();
                    after(t.hold, move || {
                        p2.st.borrow_mut().streams.get_mut(&sid).unwrap().hold = false;
                        let open = { let s = p2.st.borrow(); let x = &s.streams[&sid]; !x.ended && !x.we_reset && x.rst.is_none() };
                        if open {
                            p2.widen(sid, 60_000);
                        }
                    });
                }
                let k = t.sends.len();
                let mut alive = true;
                for (j, (d, gap)) in t.sends.iter().enumerate() {
                    if *gap > 0 {
                        sleep(*gap).await;
                    }
                    if t.noise && wc(1, 4) {
                        peer.send(h2raw::PRIORITY, 0, sid, &[0, 0, 0, 0, wd(256) as u8]);
                    }
                    let last = j + 1 == k && t.end == RawEnd::Last;
                    let gone = { let s = peer.st.borrow(); s.eof || s.err || s.streams.get(&sid).map_or(true, |x| x.rst.is_some()) };
                    if gone {
                        alive = false;
                        break;
                    }
                    if d.is_empty() {
                        count("empty_frames");
                        peer.send(h2raw::DATA, 0, sid, &[]);
                    } else if !peer.data(sid, d, last, t.noise).await {
                        alive = false;
                        break;
                    }
                    let mut r = raws.borrow_mut();
                    r[i].sent += d.len();
                    r[i].ended |= last;
                }
                if t.end_gap > 0 {
                    sleep(t.end_gap).await;
                }
                if t.end == RawEnd::Later && alive {
                    let p2 = peer.clone();
                    let mut a = Box::pin(async move { p2.until(|s| s.streams.get(&sid).map_or(false, |x| x.ended || x.rst.is_some())).await });
                    let mut b = Box::pin(close.wait());
                    std::future::poll_fn(|cx| if a.as_mut().poll(cx).is_ready() || b.as_mut().poll(cx).is_ready() { Poll::Ready(()) } else { Poll::Pending }).await;
                }
                let gone = { let s = peer.st.borrow(); s.eof || s.err || s.streams.get(&sid).map_or(true, |x| x.rst.is_some()) };
                if alive && !gone {
                    match &t.end {
                        RawEnd::Last => {
                            if !raws.borrow()[i].ended {
                                raws.borrow_mut()[i].ended = peer.data(sid, &[], true, false).await;
                            }
                        }
                        RawEnd::Empty | RawEnd::Later => raws.borrow_mut()[i].ended = peer.data(sid, &[], true, t.noise).await,
                        RawEnd::Reset(c) => {
                            count("raw_resets");
                            peer.rst(sid, *c);
                            raws.borrow_mut()[i].reset = Some(*c);
                        }
                    }
                }
                raws.borrow_mut()[i].over = true;
            });
        }
    };
    if hyper_server {
        peer = Peer::new(csock, true, window, 16_384, 4096, policy);
        let (oc2, logs2, plans2, close2) = (oc.clone(), logs.clone(), plans.clone(), close.clone());
        let tuns2 = tuns.clone();
        let svc = hyper::service::service_fn(move |mut req: http::Request<hyper::body::Incoming>| {
            let id: usize = req.uri().host().and_then(|h| h.strip_prefix("sim")).and_then(|x| x.parse().ok()).unwrap_or(usize::MAX);
            let x = tuns2.get(id).cloned().map(|t| (t, plans2[id].clone(), logs2[id].clone()));
            let (oc, close) = (oc2.clone(), close2.clone());
            async move {
                let Some((t, plan, log)) = x else {
                    violate("unknown-request", format!("service called for {} {}", req.method(), req.uri()));
                    return Err(SimErr("unknown"));
                };
                oc.borrow_mut().calls += 1;
                let on = hyper::upgrade::on(&mut req);
                wait_up(1, id, on, false, plan, log, oc.clone(), close);
                if t.delay > 0 {
                    sleep(t.delay).await;
                }
                Ok(http::Response::builder().status(t.status).body(step_body(b"")).unwrap())
            }
        });
        let mut b = server_builder(&side);
        b.enable_connect_protocol();
        let c = b.serve_connection(ssock, svc);
        let oc2 = oc.clone();
        conn_task = spawn_in(4, "server", async move {
            let r = c.await;
            tr(|| format!("  server result {r:?}"));
            oc2.borrow_mut().conn[1] = Some(r.map_err(|e| format!("{e:?}")));
        });
        peer.open(&[(4, window)]);
        peer.spawn();
        let (p2, tuns2) = (peer.clone(), tuns.clone());
        spawn_in(8, "raw-client", async move {
            p2.until(|s| s.peer_settings > 0).await;
            for (i, t) in tuns2.into_iter().enumerate() {
                let sid = 1 + 2 * i as u32;
                let auth = format!("sim{i}:80");
                let mut f = vec![field(":method", b"CONNECT"), field(":authority", auth.as_bytes())];
                if t.extended {
                    f.insert(1, field(":protocol", b"sim"));
                    f.push(field(":scheme", b"http"));
                    f.push(field(":path", b"/chat"));
                }
                p2.headers(sid, &f, false, true);
                let delay = t.delay;
                let (script, p3) = (script.clone(), p2.clone());
                if wc(1, 2) {
                    // not before the answer
                    let p4 = p2.clone();
                    spawn_in(8, format!("raw-open{i}"), async move {
                        p4.until(|s| s.streams[&sid].heads.len() > 0 || s.streams[&sid].rst.is_some()).await;
                        script(p3, i, t);
                    });
                } else {
                    script(p3, i, t);
                }
                sleep(delay).await;
            }
        });
    } else {
        peer = Peer::new(ssock, false, window, 16_384, 4096, policy);
        peer.open(&[(4, window)]);
        peer.spawn();
        let (p2, tuns2) = (peer.clone(), tuns.clone());
        spawn_in(8, "raw-server", async move {
            for (i, t) in tuns2.into_iter().enumerate() {
                let sid = 1 + 2 * i as u32;
                let (p3, script) = (p2.clone(), script.clone());
                spawn_in(8, format!("raw-accept{i}"), async move {
                    if !p3.until(|s| s.streams.get(&sid).map_or(false, |x| !x.heads.is_empty())).await {
                        return;
                    }
                    if t.delay > 0 {
                        sleep(t.delay).await;
                    }
                    if p3.st.borrow().streams[&sid].rst.is_some() {
                        return;
                    }
                    let st = t.status.to_string();
                    p3.headers(sid, &[field(":status", st.as_bytes())], false, true);
                    script(p3.clone(), i, t);
                });
            }
        });
        let slot: Rc<RefCell<Option<hyper::client::conn::http2::SendRequest<SimBody>>>> = Rc::default();
        let ready = Gate::new();
        let (slot2, ready2, oc2) = (slot.clone(), ready.clone(), oc.clone());
        let b = client_builder(&side);
        conn_task = spawn_in(1, "client", async move {
            let r = match b.handshake::<_, SimBody>(csock).await {
                Ok((sr, c)) => {
                    *slot2.borrow_mut() = Some(sr);
                    ready2.open();
                    c.await
                }
                Err(e) => {
                    ready2.open();
                    Err(e)
                }
            };
            tr(|| format!("  client result {r:?}"));
            oc2.borrow_mut().conn[0] = Some(r.map_err(|e| format!("{e:?}")));
        });
        let (oc2, logs2, plans2, close2) = (oc.clone(), logs.clone(), plans.clone(), close.clone());
        spawn_in(2, "caller", async move {
            ready.wait().await;
            let Some(mut sr) = slot.borrow_mut().take() else { return };
            settled(conn).await;
            for id in 0..n {
                if sr.ready().await.is_err() {
                    return;
                }
                let req = http::Request::builder().method("CONNECT").uri(format!("sim{id}:80")).body(step_body(b"")).unwrap();
                let f = sr.send_request(req);
                let (oc, log, plan, close) = (oc2.clone(), logs2[id].clone(), plans2[id].clone(), close2.clone());
                spawn_in(2, format!("outcome{id}"), async move {
                    match f.await {
                        Err(e) => {
                            tr(|| format!("  tunnel {id}: {e:?}"));
                            oc.borrow_mut().answers[id] = Some(Err(format!("{e:?}")));
                        }
                        Ok(mut r) => {
                            let st = r.status().as_u16();
                            let on = hyper::upgrade::on(&mut r);
                            wait_up(0, id, on, false, plan, log, oc.clone(), close);
                            oc.borrow_mut().answers[id] = Some(Ok((st, vec![])));
                        }
                    }
                });
            }
        });
    }
    if abrupt {
        let d = wd(2) as usize;
        let at = if wc(1, 2) { wd(600) } else { wd(20_000) };
        let kind = pick(if d == 1 - hy { &[Fault::Eof, Fault::Reset, Fault::ReadErr] } else { &[Fault::Eof, Fault::Reset] });
        plan_fault(conn, d, at as u64, kind);
        tr(|| format!("planned {kind:?} at byte {at} of dir {d}"));
    }
    net::arm(conn);
    let lim = || Limits { max_steps: 600_000, horizon: 3600 * SEC };
    for phase in 0..3 {
        let end = run(lim(), || false);
        if violated() {
            return;
        }
        if end != End::Quiescent {
            violate("no-progress", format!("phase {phase} ended with {end:?}"));
            return;
        }
        if stalemate(conn) {
            return;
        }
        let calm = !net::any_fault_fired(conn) && !peer.st.borrow().goaways.iter().any(|g| g.1 == 11);
        let fired = net::any_fault_fired(conn);
        let st = peer.st.borrow();
        for i in 0..n {
            let (a, r, t, p) = (logs[i].borrow(), raws.borrow()[i].clone(), &tuns[i], &plans[i]);
            let sid = 1 + 2 * i as u32;
            let who = format!("raw tunnel {i} (hyper {})", if hyper_server { "server" } else { "client" });
            let sent: Vec<u8> = t.sends.iter().flat_map(|s| s.0.clone()).collect();
            if let Some(Some(Err(e))) = oc.borrow().waiting[hy].get(i) {
                // (a reset may come before the service answers)
                if calm && !(hyper_server && r.reset.is_some()) {
                    violate("upgrade-lost", format!("{who}: {e}"));
                    return;
                }
            }
            if calm && !a.attached && phase == 0 && r.reset.is_none() {
                violate("upgrade-lost", format!("{who}: nothing became of it; answers {:?}", oc.borrow().answers[i]));
                return;
            }
            if !sent.starts_with(&a.read) {
                violate("tunnel-bytes", format!("{who}: {} bytes read that are not what was sent: {}", a.read.len(), shorten(&a.read)));
                return;
            }
            let x = st.streams.get(&sid);
            let got: &[u8] = x.map_or(&[], |x| &x.data);
            if !a.wrote.starts_with(got) && a.werr.is_none() {
                violate("tunnel-bytes", format!("{who}: {} bytes on the wire that are not what was written: {}", got.len(), shorten(got)));
                return;
            }
            if let Some(x) = x {
                let mine = a.dropped && a.end == Fin::Open;
                if x.ended && got.len() < a.wrote.len() && a.werr.is_none() {
                    violate("tunnel-truncated", format!("{who}: END_STREAM after {} of {} bytes", got.len(), a.wrote.len()));
                    return;
                }
                if x.ended && !a.shut_called && !a.dropped {
                    violate("tunnel-truncated", format!("{who}: END_STREAM though the end was neither shut down nor dropped"));
                    return;
                }
                if x.rst.is_some() && calm && r.reset.is_none() && !mine && !(a.dropped && matches!(x.rst, Some(0 | 8))) {
                    violate("tunnel-reset", format!("{who}: reset {:?}", x.rst));
                    return;
                }
            }
            match &a.end {
                Fin::Eof => {
                    let soft = matches!(r.reset, Some(0 | 8));
                    if !soft && (!r.ended || a.read.len() < sent.len()) {
                        violate("tunnel-truncated", format!("{who}: an orderly end after {} of {} bytes, but the peer {}", a.read.len(), sent.len(), if let Some(c) = r.reset { format!("reset the stream with {c}") } else if fired { "failed".into() } else { "did not end".into() }));
                        return;
                    }
                }
                Fin::Err(e) => {
                    if calm && r.reset.is_none() && a.werr.is_none() {
                        violate("tunnel-error", format!("{who}: nothing failed but the reader got {e} after {} of {} bytes", a.read.len(), sent.len()));
                        return;
                    }
                }
                Fin::Open => {
                    if a.attached && !a.dropped && (r.ended || r.reset.is_some() || fired && !calm && phase == 2) {
                        violate("tunnel-stuck", format!("{who}: the peer's direction is over ({r:?}) but the reader still waits after {} of {} bytes", a.read.len(), sent.len()));
                        return;
                    }
                    if calm && a.attached && !a.dropped && r.reset.is_none() && a.read.len() < r.sent {
                        violate("tunnel-stuck", format!("{who}: {} of {} bytes have arrived at quiescence", a.read.len(), r.sent));
                        return;
                    }
                    if calm && a.attached && !a.dropped && r.opened && !r.over && t.end != RawEnd::Later {
                        violate("tunnel-stuck", format!("{who}: the raw writer is stuck after {} of {} bytes", r.sent, sent.len()));
                        return;
                    }
                }
            }
            if calm && r.reset.is_none() {
                if let Some(e) = &a.werr {
                    violate("tunnel-write-error", format!("{who}: nothing failed but a write got {e}"));
                    return;
                }
                if a.attached && !a.dropped && a.wrote.len() < p.data().len() {
                    violate("tunnel-stuck", format!("{who}: the writer is stuck after {} of {} bytes", a.wrote.len(), p.data().len()));
                    return;
                }
                if a.shut_called && !a.dropped && a.shut.is_none() {
                    violate("tunnel-stuck", format!("{who}: shutdown does not finish"));
                    return;
                }
                if let Some(Err(e)) = &a.shut {
                    violate("tunnel-shutdown-error", format!("{who}: nothing failed but shutdown got {e}"));
                    return;
                }
                if (a.shut_called || a.dropped) && !x.is_some_and(|x| x.ended || x.rst.is_some()) {
                    violate("tunnel-stuck", format!("{who}: closed (shutdown {:?}, dropped {}) but the stream does not end", a.shut, a.dropped));
                    return;
                }
            }
            if r.reset.is_some() && a.attached && !a.writer_done && !a.dropped {
                violate("tunnel-stuck", format!("{who}: the stream was reset but the writer still waits after {} bytes", a.wrote.len()));
                return;
            }
        }
        drop(st);
        match phase {
            0 => close.open(),
            1 => peer.close(),
            _ => {}
        }
    }
    let st = peer.st.borrow();
    if !net::any_fault_fired(conn) && st.goaways.iter().any(|g| g.1 != 0 && g.1 != 11) {
        violate("conn-error", format!("nothing failed on the connection but GOAWAYs {:?}", st.goaways));
        return;
    }
    drop(st);
    released(conn_task, conn, hy, if hyper_server { &[4, 5] } else { &[1, 2, 3] });
}
