//! Family h2p: a real hyper HTTP/2 client and a real hyper HTTP/2 server,
//! talking to each other over the simulated transport.
use crate::body::*;
use crate::core::*;
use crate::f_h1c::{Out, Res};
use crate::f_h1s::{flags, released, Cmd, Driver, ReadPlan};
use crate::gen::*;
use crate::h1ref::*;
use crate::net::{self, *};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

// ---- frame tap ---------------------------------------------------------------

pub const PREFACE: &[u8] = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";
#[derive(Clone, Debug)]
pub struct Fr {
    pub kind: u8,
    pub flags: u8,
    pub sid: u32,
    pub len: usize,
    pub off: usize,
}
pub fn frames(b: &[u8], mut i: usize) -> Vec<Fr> {
    let mut v = Vec::new();
    while i + 9 <= b.len() {
        let len = (b[i] as usize) << 16 | (b[i + 1] as usize) << 8 | b[i + 2] as usize;
        let sid = u32::from_be_bytes([b[i + 5] & 0x7f, b[i + 6], b[i + 7], b[i + 8]]);
        if i + 9 + len > b.len() {
            break;
        }
        v.push(Fr { kind: b[i + 3], flags: b[i + 4], sid, len, off: i + 9 });
        i += 9 + len;
    }
    v
}
/// Puts the frames into the trace.
pub fn tell_frames(fs: &[Fr], b: &[u8], who: &str) {
    for f in fs {
        tr(|| {
            let k = ["DATA", "HEADERS", "PRIORITY", "RST_STREAM", "SETTINGS", "PUSH_PROMISE", "PING", "GOAWAY", "WINDOW_UPDATE", "CONTINUATION"];
            let k = k.get(f.kind as usize).copied().unwrap_or("?");
            let x = match f.kind {
                3 | 8 if f.len >= 4 => format!(" {}", be32(&b[f.off..])),
                7 if f.len >= 8 => format!(" last={} code={}", be32(&b[f.off..]), be32(&b[f.off + 4..])),
                _ => String::new(),
            };
            format!("  {who} wrote {k} stream {} flags {:#x} len {}{x}", f.sid, f.flags, f.len)
        });
    }
}
pub fn be32(b: &[u8]) -> u32 {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]])
}
pub fn settings(b: &[u8], f: &Fr) -> Vec<(u16, u32)> {
    b[f.off..f.off + f.len].chunks_exact(6).map(|c| (u16::from_be_bytes([c[0], c[1]]), be32(&c[2..]))).collect()
}

// ---- generation --------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct HReq {
    pub method: String,
    pub path: String,
    pub hdrs: Hdrs,
    pub body: BodySpec,
    pub cancel: Option<u64>,
    pub read: ReadPlan,
    pub gap: u64,
    pub ready: bool,
    pub try_send: bool,
    pub cloned: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Answer,
    Fail,
    Hang,
}
#[derive(Clone, Debug, PartialEq)]
pub enum SRead {
    All,
    Side,
    Drop,
    Frames(u32),
    Hold(u64),
    Echo,
}
#[derive(Clone, Debug)]
pub struct HResp {
    pub mode: Mode,
    pub delay: u64,
    pub status: u16,
    pub hdrs: Hdrs,
    pub body: BodySpec,
    pub read: SRead,
}
#[derive(Clone, Debug)]
pub struct Side {
    pub sw: Option<u32>,
    pub cw: Option<u32>,
    pub adaptive: bool,
    pub frame: Option<u32>,
    pub mcs: Option<u32>,
    pub send_buf: Option<usize>,
    pub table: Option<u32>,
    pub hls: Option<u32>,
    pub imss: Option<usize>,
    pub date: bool,
}
impl Side {
    /// The stream window it announces first.
    pub fn first_window(&self, client: bool) -> u32 {
        if self.adaptive {
            65_535
        } else {
            self.sw.unwrap_or(if client { 2 << 20 } else { 1 << 20 })
        }
    }
}
pub fn draw_side(focus: &str, client: bool) -> Side {
    let tight = matches!(focus, "C16" | "C23");
    let win: &[Option<u32>] = if tight { &[Some(1000), Some(16_384), Some(65_535), Some(40_000)] } else { &[None, None, Some(1), Some(100), Some(5_000), Some(65_535), Some(200_000)] };
    let cwin: &[Option<u32>] = if tight { &[Some(65_535), Some(65_535), Some(70_000)] } else { &[None, None, Some(65_535), Some(70_000), Some(1 << 20)] };
    Side {
        sw: pick(win),
        cw: pick(cwin),
        adaptive: wc(1, if focus == "C12" { 2 } else { 8 }),
        frame: pick(&[None, None, Some(16_384), Some(20_000), Some(100_000), Some(16_777_215)]),
        mcs: if client { pick(&[None, Some(10)]) } else { pick(&[None, None, Some(1), Some(2), Some(3), Some(10)]) },
        send_buf: pick(&[None, None, Some(1), Some(100), Some(5_000), Some(50_000)]),
        table: pick(&[None, None, Some(0), Some(100), Some(4096), Some(10_000)]),
        hls: pick(&[None, None, Some(16_384), Some(60_000)]),
        imss: None,
        date: !wc(1, 3),
    }
}
impl Side {
    pub fn stream_window(&self) -> u32 {
        if self.adaptive {
            65_535
        } else {
            self.sw.unwrap_or(1 << 20)
        }
    }
}

fn conn_specific(h: &mut Hdrs, request: bool) {
    match wd(8) {
        0 => h.push(("keep-alive".into(), b"timeout=5".to_vec())),
        1 => h.push(("proxy-connection".into(), b"keep-alive".to_vec())),
        2 => h.push(("upgrade".into(), b"websocket".to_vec())),
        3 => h.push(("connection".into(), pick(&[&b"close"[..], b"keep-alive", b"upgrade"]).to_vec())),
        4 => {
            h.push(("connection".into(), pick(&[&b"x-hop"[..], b"X-Hop, close", b" x-hop ,x-a"]).to_vec()));
            h.push(("x-hop".into(), b"1".to_vec()));
        }
        5 => {
            h.push(("connection".into(), b"close".to_vec()));
            h.push(("connection".into(), b"x-hop".to_vec()));
            h.push(("x-hop".into(), b"1".to_vec()));
        }
        6 => h.push(("transfer-encoding".into(), b"chunked".to_vec())),
        _ => {
            if request {
                h.push(("te".into(), pick(&[&b"trailers"[..], b"gzip", b"trailers, gzip"]).to_vec()));
                if wc(1, 3) {
                    h.push(("te".into(), pick(&[&b"gzip"[..], b"trailers"]).to_vec()));
                }
            } else {
                h.push(("te".into(), b"trailers".to_vec()));
            }
        }
    }
}
/// What may cross an HTTP/2 connection.
pub fn stripped(h: &Hdrs, request: bool) -> HMap {
    let mut m = hmap(h);
    let mut gone: Vec<String> = ["keep-alive", "proxy-connection", "transfer-encoding", "upgrade", "connection"].iter().map(|x| x.to_string()).collect();
    if let Some(c) = m.get("connection") {
        gone.extend(crate::f_h1s::tokens(c));
    }
    if let Some(t) = m.get("te") {
        if !request || t.iter().any(|v| v != b"trailers") {
            gone.push("te".into());
        }
    }
    for g in gone {
        m.remove(&g.to_ascii_lowercase());
    }
    m
}

fn gen_body(id: u32, max: usize, focus: &str, fail: u32) -> BodySpec {
    let n = match focus {
        "C16" => wr(20_000, 300_000) as usize,
        "C23" => pick(&[body_len(), wr(1000, 120_000) as usize]),
        _ => body_len(),
    }
    .min(max);
    let data = content(id, n);
    let big = focus == "C16" || n > 60_000;
    let mut steps = if big { big_steps(&data) } else { body_steps(&data, wc(1, 3)) };
    if wc(1, 6) {
        let k = wr(1, 3);
        let t: Hdrs = (0..k).map(|j| (format!("x-tr-{}", again(j)), header_value())).collect();
        if wc(1, 3) {
            steps.push(Step::Yield);
        }
        steps.push(Step::Trailers(to_http(&t)));
    }
    let hint = match ww(&[5, 4, 1, 1]) {
        0 => Hint::Exact,
        1 => Hint::Unknown,
        2 => Hint::Lower,
        _ => Hint::Upper,
    };
    let mut b = BodySpec { steps, hint, eos: !wc(1, 3) };
    if fail > 0 && wc(1, fail) {
        match wd(3) {
            0 => {
                let k = wd(b.steps.len() as u32 + 1) as usize;
                if b.hint == Hint::Exact {
                    b.hint = Hint::Lie(b.len());
                }
                b.steps.truncate(k);
                b.steps.retain(|s| !matches!(s, Step::Trailers(_)));
                b.steps.push(Step::Err);
            }
            1 if b.len() > 0 => b.hint = Hint::Lie(b.len() + wr(1, 20) as u64),
            2 if b.len() > 1 => b.hint = Hint::Lie(b.len().saturating_sub(wr(1, 20) as u64).max(1)),
            _ => {}
        }
    }
    b
}
/// The bytes a body offers and whether the message may end cleanly.
pub fn h2_body(b: &BodySpec) -> (Vec<u8>, bool) {
    let d = b.data();
    let ok = !b.fails() && !b.hangs() && b.declared().map_or(true, |n| n == d.len() as u64);
    (d, ok)
}
pub fn gen_req(i: usize, max: usize, focus: &str, fail: u32) -> HReq {
    let method = pick(&["GET", "GET", "POST", "POST", "PUT", "HEAD", "OPTIONS", "DELETE", "X-M!"]).to_string();
    let mut hdrs = plain_headers(4);
    if wc(1, 4) {
        conn_specific(&mut hdrs, true);
    }
    let has_body = match method.as_str() {
        "GET" | "HEAD" => wc(1, 8),
        _ => wc(4, 5),
    };
    let mut body = if has_body { gen_body(i as u32 + 100, max, focus, fail) } else { BodySpec::empty() };
    if wc(1, 10) && body.hint == Hint::Unknown && !body.fails() {
        hdrs.push(("content-length".into(), body.len().to_string().into_bytes()));
    }
    if body.eos && body.steps.is_empty() {
        body.hint = Hint::Exact;
    }
    let cw = match focus {
        "C23" => 4,
        "C07" => 3,
        "C22" | "C18" | "C09" => 8,
        _ => 0,
    };
    HReq {
        method,
        path: match ww(&[6, 2]) {
            0 => format!("/r{i}"),
            _ => format!("/r{i}?q=%20a&b"),
        },
        hdrs,
        body,
        cancel: if cw > 0 && wc(1, cw) { Some(wd(6000) as u64 * 1000) } else { None },
        read: match ww(match focus {
            "C23" => &[4, 1, 1, 1, 1],
            "C16" => &[3, 0, 0, 3, 0],
            "C15" | "C10" => &[8, 0, 0, 2, 0],
            _ => &[8, 1, 1, 1, 1],
        }) {
            0 => ReadPlan::All,
            1 => ReadPlan::Drop,
            2 => ReadPlan::Frames(wr(1, 3)),
            3 => ReadPlan::Side(wr(0, 3000) as u64 * 1000),
            _ => ReadPlan::Hold(wr(0, 3000) as u64 * 1000),
        },
        gap: if wc(1, 3) { wr(1, 4000) as u64 * 1000 } else { 0 },
        ready: wc(1, 3),
        try_send: wc(1, 2),
        cloned: wc(1, 3),
    }
}
pub fn gen_resp(i: usize, r: &HReq, max: usize, focus: &str, fail: u32) -> HResp {
    let status = pick(&[200u16, 200, 200, 201, 206, 404, 500, 299, 204, 304, 302]);
    let bodiless = r.method == "HEAD" || status == 204 || status == 304;
    let mut hdrs = plain_headers(4);
    hdrs.push(("x-for".into(), i.to_string().into_bytes()));
    if wc(1, 5) {
        conn_specific(&mut hdrs, false);
    }
    if wc(1, 12) {
        hdrs.push(("date".into(), b"Sun, 06 Nov 1994 08:49:37 GMT".to_vec()));
    }
    let mut body = if bodiless { BodySpec::empty() } else { gen_body(i as u32 + 5000, max, focus, fail) };
    if bodiless {
        body.eos = !wc(1, 4);
        if r.method == "HEAD" && wc(1, 2) && body.eos {
            hdrs.push(("content-length".into(), wd(5000).to_string().into_bytes()));
        }
    } else if wc(1, 10) && body.hint == Hint::Unknown && !body.fails() {
        hdrs.push(("content-length".into(), body.len().to_string().into_bytes()));
    }
    let read = match ww(match focus {
        "C23" | "C07" => &[4, 2, 1, 1, 1, 1],
        "C16" => &[2, 2, 0, 0, 0, 1],
        "C15" | "C10" => &[4, 3, 0, 0, 0, 2],
        _ => &[6, 3, 1, 1, 1, 1],
    }) {
        0 => SRead::All,
        1 => SRead::Side,
        2 => SRead::Drop,
        3 => SRead::Frames(wr(1, 3)),
        4 => SRead::Hold(wr(0, 3000) as u64 * 1000),
        _ if bodiless => SRead::All,
        _ => SRead::Echo,
    };
    let mode = match focus {
        "C23" | "C07" | "C18" | "C22" if wc(1, 10) => Mode::Fail,
        "C23" | "C07" if r.cancel.is_some() && wc(1, 3) => Mode::Hang,
        _ => Mode::Answer,
    };
    if read == SRead::Echo {
        hdrs.retain(|h| h.0 != "content-length");
    }
    HResp { mode, delay: if wc(1, 2) { wr(1, 5000) as u64 * 1000 } else { 0 }, status, hdrs, body, read }
}

// ---- state -------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct HCall {
    pub req: usize,
    pub method: String,
    pub uri: String,
    pub v2: bool,
    pub hdrs: HMap,
    pub log: LogRef,
    pub finished: bool,
    /// the call's future is no more
    pub gone: bool,
    pub at: u64,
}
#[derive(Default)]
pub struct Shared {
    pub outs: Vec<Out>,
    pub calls: Vec<HCall>,
    pub client_result: Option<Result<(), String>>,
    pub server_result: Option<Result<(), String>>,
    pub active: usize,
    pub max_active: usize,
    pub graceful: bool,
    pub calls_at_graceful: usize,
    pub bodies: Vec<Option<usize>>,
    /// the wire is spoiled: requests may be anything
    pub spoiled: bool,
}
pub type Sh = Rc<RefCell<Shared>>;

struct Active(Sh, usize);
impl Drop for Active {
    fn drop(&mut self) {
        let mut s = self.0.borrow_mut();
        s.active -= 1;
        s.calls[self.1].gone = true;
    }
}

pub fn path_index(p: &str) -> usize {
    let d: String = p.trim_start_matches("/r").chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().unwrap_or(usize::MAX)
}

pub async fn serve(req: http::Request<hyper::body::Incoming>, plans: Rc<RefCell<Vec<HResp>>>, sh: Sh) -> Result<http::Response<OutBody>, SimErr> {
    let (p, body) = req.into_parts();
    let i = path_index(p.uri.path());
    let mut cb = CheckedBody::new_h2(body, format!("req{i}"));
    let k = {
        let mut s = sh.borrow_mut();
        s.calls.push(HCall {
            req: i,
            method: p.method.to_string(),
            uri: p.uri.to_string(),
            v2: p.version == http::Version::HTTP_2,
            hdrs: hmap_http(&p.headers),
            log: cb.log.clone(),
            finished: false,
            gone: false,
            at: now(),
        });
        s.active += 1;
        s.max_active = s.max_active.max(s.active);
        s.calls.len() - 1
    };
    let _a = Active(sh.clone(), k);
    tr(|| format!("  service called for {i}"));
    note(0x5e41u64.wrapping_add(i as u64));
    let plan = plans.borrow().get(i).cloned();
    let Some(plan) = plan else {
        if !sh.borrow().spoiled {
            violate("unknown-request", format!("service got {}", p.uri));
        }
        return Err(SimErr("unknown"));
    };
    let left = cb.log.borrow().first_exact;
    let mut echo = None;
    match plan.read {
        SRead::All => {
            cb.read_all().await;
            drop(cb);
        }
        SRead::Drop => drop(cb),
        SRead::Frames(n) => {
            for _ in 0..n {
                match cb.frame().await {
                    Some(Ok(_)) => {}
                    _ => break,
                }
            }
            drop(cb);
        }
        SRead::Side => {
            let d = plan.delay / 2;
            spawn_in(7, "req-reader", async move {
                hold_at(Some(1), d, left).await;
                cb.read_all().await;
            });
        }
        SRead::Hold(d) => {
            spawn_in(7, "req-holder", async move {
                hold_at(Some(1), d, left).await;
                drop(cb);
            });
        }
        SRead::Echo => {
            echo = Some(cb);
        }
    }
    if plan.delay > 0 {
        sleep(plan.delay).await;
    }
    match plan.mode {
        Mode::Fail => {
            count("service_failures");
            sh.borrow_mut().calls[k].finished = true;
            return Err(SimErr("service failed"));
        }
        Mode::Hang => forever().await,
        Mode::Answer => {}
    }
    let b = match echo {
        Some(inner) => {
            let exact = inner.log.borrow().first_exact;
            OutBody::Echo(EchoBody { inner, forward_trailers: true, exact })
        }
        None => {
            let b = plan.body.build(format!("resp{i}"));
            sh.borrow_mut().bodies[i] = Some(b.id);
            OutBody::Sim(b)
        }
    };
    let mut r = http::Response::new(b);
    *r.status_mut() = http::StatusCode::from_u16(plan.status).unwrap();
    *r.headers_mut() = to_http(&plan.hdrs);
    sh.borrow_mut().calls[k].finished = true;
    Ok(r)
}

type SendFut = Pin<Box<dyn Future<Output = Result<http::Response<hyper::body::Incoming>, (hyper::Error, Option<http::Request<SimBody>>)>>>>;
pub type Handle = hyper::client::conn::http2::SendRequest<SimBody>;

pub async fn outcome(i: usize, r: HReq, f: SendFut, sh: Sh) {
    let mut f = Some(f);
    let mut to = r.cancel.map(sleep);
    let res = std::future::poll_fn(|cx| {
        if let Poll::Ready(x) = f.as_mut().unwrap().as_mut().poll(cx) {
            return Poll::Ready(Some(x));
        }
        if let Some(t) = &mut to {
            if Pin::new(t).poll(cx).is_ready() {
                return Poll::Ready(None);
            }
        }
        Poll::Pending
    })
    .await;
    drop(f.take());
    let fin = |sh: &Sh| sh.borrow_mut().outs[i].done = true;
    match res {
        None => {
            count("cancelled_requests");
            tr(|| format!("  caller cancels request {i}"));
            sh.borrow_mut().outs[i].cancelled = true;
            fin(&sh);
        }
        Some(Err((e, m))) => {
            tr(|| format!("  request {i} failed: {e:?} (returned: {})", m.is_some()));
            if let Some(m) = &m {
                if m.uri().path() != r.path.split('?').next().unwrap() || m.method().as_str() != r.method {
                    violate("wrong-request-returned", format!("request {i}: the error hands back {} {}", m.method(), m.uri()));
                }
            }
            note(0xe44 + i as u64);
            sh.borrow_mut().outs[i].result = Some(Res::Err { flags: flags(&e), text: format!("{e:?}"), returned: m.is_some() });
            fin(&sh);
        }
        Some(Ok(resp)) => {
            let (p, body) = resp.into_parts();
            tr(|| format!("  request {i} answered {}", p.status));
            note(0x0c + p.status.as_u16() as u64 + ((i as u64) << 20));
            let mut cb = CheckedBody::new_h2(body, format!("resp{i}"));
            {
                let mut s = sh.borrow_mut();
                s.outs[i].result = Some(Res::Ok { status: p.status.as_u16(), v11: p.version == http::Version::HTTP_2, hdrs: hmap_http(&p.headers), reason: None });
                s.outs[i].log = Some(cb.log.clone());
            }
            let left = cb.log.borrow().first_exact;
            match r.read {
                ReadPlan::All => {
                    cb.read_all().await;
                    drop(cb);
                    fin(&sh);
                }
                ReadPlan::Drop => {
                    drop(cb);
                    fin(&sh);
                }
                ReadPlan::Frames(n) => {
                    for _ in 0..n {
                        match cb.frame().await {
                            Some(Ok(_)) => {}
                            _ => break,
                        }
                    }
                    drop(cb);
                    fin(&sh);
                }
                ReadPlan::Side(d) => {
                    let sh = sh.clone();
                    spawn_in(7, "body-reader", async move {
                        hold_at(Some(0), d, left).await;
                        cb.read_all().await;
                        sh.borrow_mut().outs[i].done = true;
                    });
                }
                ReadPlan::Hold(d) => {
                    let sh = sh.clone();
                    spawn_in(7, "body-holder", async move {
                        hold_at(Some(0), d, left).await;
                        drop(cb);
                        sh.borrow_mut().outs[i].done = true;
                    });
                }
            }
        }
    }
}

pub fn submit(sr: &mut Handle, i: usize, r: &HReq, sh: &Sh) -> SendFut {
    let b = r.body.build(format!("req{i}"));
    sh.borrow_mut().outs[i].body_id = Some(b.id);
    let mut req = http::Request::new(b);
    *req.method_mut() = http::Method::from_bytes(r.method.as_bytes()).unwrap();
    *req.uri_mut() = format!("http://example.com{}", r.path).parse().unwrap();
    *req.headers_mut() = to_http(&r.hdrs);
    sh.borrow_mut().outs[i].submitted = true;
    tr(|| format!("  caller submits request {i}"));
    if r.try_send {
        let f = sr.try_send_request(req);
        Box::pin(async move {
            f.await.map_err(|mut e| {
                let m = e.take_message();
                (e.into_error(), m)
            })
        })
    } else {
        let f = sr.send_request(req);
        Box::pin(async move { f.await.map_err(|e| (e, None)) })
    }
}

pub fn client_builder(c: &Side) -> hyper::client::conn::http2::Builder<SimExec> {
    let mut b = hyper::client::conn::http2::Builder::new(SimExec(3, "client-exec"));
    b.timer(SimTimer);
    if let Some(x) = c.sw {
        b.initial_stream_window_size(x);
    }
    if let Some(x) = c.cw {
        b.initial_connection_window_size(x);
    }
    if c.adaptive {
        b.adaptive_window(true);
    }
    if let Some(x) = c.frame {
        b.max_frame_size(x);
    }
    if let Some(x) = c.mcs {
        b.max_concurrent_streams(x);
    }
    if let Some(x) = c.send_buf {
        b.max_send_buf_size(x);
    }
    if let Some(x) = c.table {
        b.header_table_size(x);
    }
    if let Some(x) = c.hls {
        b.max_header_list_size(x);
    }
    if let Some(x) = c.imss {
        b.initial_max_send_streams(x);
    }
    b
}
pub fn server_builder(c: &Side) -> hyper::server::conn::http2::Builder<SimExec> {
    let mut b = hyper::server::conn::http2::Builder::new(SimExec(5, "server-exec"));
    b.timer(SimTimer);
    if let Some(x) = c.sw {
        b.initial_stream_window_size(x);
    }
    if let Some(x) = c.cw {
        b.initial_connection_window_size(x);
    }
    if c.adaptive {
        b.adaptive_window(true);
    }
    if let Some(x) = c.frame {
        b.max_frame_size(x);
    }
    if let Some(x) = c.mcs {
        b.max_concurrent_streams(x);
    }
    if let Some(x) = c.send_buf {
        b.max_send_buf_size(x);
    }
    if let Some(x) = c.table {
        b.header_table_size(x);
    }
    if let Some(x) = c.hls {
        b.max_header_list_size(x);
    }
    b.auto_date_header(c.date);
    b
}

/// The SETTINGS a side must announce.
pub fn check_settings(b: &[u8], client: bool, s: &Side) {
    let start = if client {
        let n = b.len().min(PREFACE.len());
        if b[..n] != PREFACE[..n] {
            violate("preface", format!("client starts with {}", shorten(&b[..n])));
            return;
        }
        PREFACE.len()
    } else {
        0
    };
    let fs = frames(b, start);
    let Some(f) = fs.first() else { return };
    if f.kind != 4 || f.flags & 1 != 0 {
        violate("preface", format!("the first frame is {f:?}"));
        return;
    }
    let got = settings(b, f);
    let dflt = |c: u32, v: u32| if client { c } else { v };
    let mut want: Vec<(u16, u32)> = Vec::new();
    want.push((4, if s.adaptive { 65_535 } else { s.sw.unwrap_or(dflt(2 << 20, 1 << 20)) }));
    want.push((5, s.frame.unwrap_or(16_384)));
    want.push((6, s.hls.unwrap_or(16_384)));
    if let Some(t) = s.table {
        want.push((1, t));
    }
    match (client, s.mcs) {
        (true, Some(n)) => want.push((3, n)),
        (false, n) => want.push((3, n.unwrap_or(200))),
        _ => {}
    }
    if client {
        want.push((2, 0));
    }
    for (id, v) in &want {
        let g: Vec<u32> = got.iter().filter(|x| x.0 == *id).map(|x| x.1).collect();
        if g != [*v] {
            violate("settings", format!("setting {id}: configured {v}, announced {g:?} (client: {client})"));
            return;
        }
    }
    for (id, v) in &got {
        if !want.iter().any(|w| w.0 == *id) {
            violate("settings", format!("setting {id}={v} announced but not configured (client: {client})"));
            return;
        }
    }
    // the connection window is raised by a WINDOW_UPDATE; it must be there
    // before the second SETTINGS-independent frame that needs it
    let cw = if s.adaptive { 65_535 } else { s.cw.unwrap_or(dflt(5 << 20, 1 << 20)) };
    // small increments are sent along with later ones
    if cw < 2 * 65_535 {
        return;
    }
    let first: Option<u32> = fs.iter().find(|f| f.kind == 8 && f.sid == 0).map(|f| be32(&b[f.off..]));
    if cw > 65_535 {
        if let Some(inc) = first {
            // (what was read before it went out is given back along with it)
            if inc < cw - 65_535 {
                violate("conn-window", format!("connection window {cw}: first WINDOW_UPDATE is {inc} (client: {client})"));
            }
        } else if fs.iter().any(|f| f.kind <= 1) {
            violate("conn-window", format!("connection window {cw} never announced (client: {client})"));
        }
    }
}

// ---- the scenario ------------------------------------------------------------

struct Ctx {
    reqs: Vec<HReq>,
    resps: Vec<HResp>,
    sh: Sh,
    conn: usize,
    killed: bool,
    client: Side,
    server: Side,
    probe: bool,
}

pub fn run_family(focus: &'static str) {
    draw_knobs();
    let mut cs = draw_side(focus, true);
    let ss = draw_side(focus, false);
    if wc(1, 3) {
        cs.imss = Some(pick(&[1usize, 2, 100]));
    }
    if let Some(m) = ss.mcs {
        if !wc(1, if focus == "C23" || focus == "C07" { 3 } else { 20 }) {
            cs.imss = Some(cs.imss.unwrap_or(100).min(m as usize));
        }
    }
    let n = match focus {
        "C16" => wr(1, 2) as usize,
        _ => match ww(&[2, 3, 3, 2]) {
            0 => 1,
            1 => 2,
            2 => wr(3, 4) as usize,
            _ => wr(5, 9) as usize,
        },
    };
    let minw = cs.stream_window().min(ss.stream_window()) as usize;
    let minb = cs.send_buf.unwrap_or(1 << 20).min(ss.send_buf.unwrap_or(1 << 20));
    let max = (minw.min(minb.max(50)) * 150).max(300);
    let fail = match focus {
        "C06" => 2,
        "C23" => 5,
        "C05" | "C07" | "C18" | "C20" | "C22" => 12,
        _ => 0,
    };
    let reqs: Vec<HReq> = (0..n).map(|i| gen_req(i, max, focus, fail)).collect();
    let resps: Vec<HResp> = (0..n).map(|i| gen_resp(i, &reqs[i], max, focus, fail)).collect();
    let (mut k0, mut k1) = (draw_io(), draw_io());
    for k in [&mut k0, &mut k1] {
        k.cap = k.cap.max(64);
        if focus == "C16" || focus == "C23" {
            k.cap = k.cap.max(1024);
            k.latency = k.latency.min(50_000);
        }
        if max < 40_000 {
            k.latency = k.latency.min(500_000);
        }
    }
    let faults = matches!(focus, "C05" | "C18" | "C22" | "C06" | "C07" | "C20") && wc(2, 3);
    let killing = matches!(focus, "C05" | "C07" | "C22" | "C18") && wc(1, 4);
    let kill_what = wd(3);
    let graceful = match focus {
        "C10" => !wc(1, 8),
        "C07" | "C22" | "C05" | "C18" => wc(1, 5),
        _ => false,
    };
    let keep_handle = wc(1, 2) && !graceful;
    if !faults && !killing {
        // a transport that lets the last bytes through whatever is still on
        // its way in the other direction
        for k in [&mut k0, &mut k1] {
            k.rst_on_drop = false;
            k.linger = true;
        }
    }
    let total: usize = reqs.iter().map(|r| r.body.len() as usize).chain(resps.iter().map(|r| r.body.len() as usize)).sum();
    let (csock, ssock) = connect("h2p", k0, k1);
    let conn = csock.conn;
    let sh: Sh = Rc::default();
    sh.borrow_mut().outs = vec![Out::default(); n + 1];
    sh.borrow_mut().bodies = vec![None; n + 1];
    // -- server
    let plans = Rc::new(RefCell::new(resps.clone()));
    let (sh2, plans2) = (sh.clone(), plans.clone());
    let svc = hyper::service::service_fn(move |req| serve(req, plans2.clone(), sh2.clone()));
    let c = server_builder(&ss).serve_connection(ssock, svc);
    let cmd: Rc<RefCell<Cmd>> = Rc::default();
    let d = Driver { conn: Box::pin(c), cmd: cmd.clone(), shut: |c| c.graceful_shutdown() };
    let sh2 = sh.clone();
    let server_task = spawn_in(4, "server", async move {
        let r = d.await;
        tr(|| format!("  server result {r:?}"));
        sh2.borrow_mut().server_result = Some(r.map_err(|e| format!("{e:?}")));
    });
    // -- client
    let slot: Rc<RefCell<Option<Handle>>> = Rc::default();
    let up = Gate::new();
    let b = client_builder(&cs);
    let (sh2, slot2, up2) = (sh.clone(), slot.clone(), up.clone());
    let client_task = spawn_in(1, "client", async move {
        let r = match b.handshake::<_, SimBody>(csock).await {
            Ok((sr, c)) => {
                *slot2.borrow_mut() = Some(sr);
                up2.open();
                c.await
            }
            Err(e) => {
                up2.open();
                Err(e)
            }
        };
        tr(|| format!("  client result {r:?}"));
        sh2.borrow_mut().client_result = Some(r.map_err(|e| format!("{e:?}")));
    });
    if faults {
        let dirn = wd(2) as usize;
        let span = total as u32 + 600;
        let at = match wd(3) {
            0 => wd(span),
            1 => wd(400),
            _ => span / 2 + wd(span / 2 + 1),
        };
        let kind = pick(&[Fault::Eof, Fault::Reset, Fault::Reset, Fault::WriteErr, Fault::ReadErr]);
        plan_fault(conn, dirn, at as u64, kind);
        tr(|| format!("planned {kind:?} at byte {at} of dir {dirn}"));
    }
    // -- callers
    let gate = Gate::new();
    let seq = wc(1, 5);
    let small = ss.stream_window() < 22_000;
    let (sh3, g2, reqs2, slot3, up3) = (sh.clone(), gate.clone(), reqs.clone(), slot.clone(), up.clone());
    let probe_req = HReq {
        method: "POST".into(),
        path: format!("/r{n}"),
        hdrs: vec![],
        body: {
            let len = wr(60_000, 150_000) as usize;
            let data = content(n as u32 + 100, len.min(max));
            BodySpec { steps: vec![Step::Data(data.into(), 1)], hint: Hint::Exact, eos: true }
        },
        cancel: None,
        read: ReadPlan::All,
        gap: 0,
        ready: true,
        try_send: true,
        cloned: false,
    };
    let probe_resp = HResp { mode: Mode::Answer, delay: 0, status: 200, hdrs: vec![("x-for".into(), n.to_string().into_bytes())], body: BodySpec::empty(), read: SRead::Echo };
    plans.borrow_mut().push(probe_resp.clone());
    let (probe_gate, probe_req2) = (Gate::new(), probe_req.clone());
    let do_probe: Rc<RefCell<bool>> = Rc::default();
    let (pg2, dp2) = (probe_gate.clone(), do_probe.clone());
    let caller = spawn_in(2, "caller", async move {
        up3.wait().await;
        let Some(mut sr) = slot3.borrow_mut().take() else { return };
        if small {
            settled(conn).await;
        }
        for (i, r) in reqs2.iter().enumerate() {
            if r.gap > 0 {
                sleep(r.gap).await;
            }
            if r.ready {
                let x = sr.ready().await;
                sh3.borrow_mut().outs[i].ready_ok = x.is_ok();
                sh3.borrow_mut().outs[i].ready_err = x.is_err();
            }
            let f = if r.cloned {
                let mut s2 = sr.clone();
                submit(&mut s2, i, r, &sh3)
            } else {
                submit(&mut sr, i, r, &sh3)
            };
            let o = outcome(i, r.clone(), f, sh3.clone());
            if seq {
                o.await;
            } else {
                spawn_in(2, format!("outcome{i}"), o);
            }
        }
        if keep_handle {
            pg2.wait().await;
            if *dp2.borrow() {
                let f = submit(&mut sr, n, &probe_req2, &sh3);
                spawn_in(2, "probe", outcome(n, probe_req2.clone(), f, sh3.clone()));
            }
            g2.wait().await;
        }
        drop(sr);
        tr(|| "  handle dropped".into());
    });
    net::arm(conn);
    let maxchunk = reqs
        .iter()
        .map(|r| &r.body)
        .chain(resps.iter().map(|r| &r.body))
        .flat_map(|b| b.steps.iter())
        .map(|s| if let Step::Data(d, _) = s { d.len() } else { 0 })
        .max()
        .unwrap_or(0);
    let slack = 2 * maxchunk + 40_000;
    if n == 1 && wc(1, 2) {
        with(|w| {
            w.pull_bound = Some((conn, 0, cs.send_buf.unwrap_or(1 << 20) + slack));
            w.pull_prefix = "req";
        });
        if !ss.adaptive && resps.iter().all(|r| r.body.len() < 1000) {
            with(|w| w.read_bound = Some((conn, 1, 2 * ss.stream_window() as usize + 40_000)));
        }
    } else if n == 1 {
        with(|w| {
            w.pull_bound = Some((conn, 1, ss.send_buf.unwrap_or(400 << 10) + slack));
            w.pull_prefix = "resp";
        });
        if !cs.adaptive && reqs.iter().all(|r| r.body.len() < 1000) {
            with(|w| w.read_bound = Some((conn, 0, 2 * cs.stream_window() as usize + 40_000)));
        }
    }
    let kill_at = if killing { Some(sd(400)) } else { None };
    let g_at = if graceful { Some(if sc(1, 4) { sd(4000) } else { sd(300) }) } else { None };
    let start = with(|w| w.steps);
    let killed = Rc::new(RefCell::new(false));
    let (killed2, sh4, up4) = (killed.clone(), sh.clone(), up.clone());
    let mut gdone = false;
    let stop = move || {
        let s = with(|w| w.steps) - start;
        if let Some(k) = kill_at {
            if s >= k as u64 && !*killed2.borrow() {
                *killed2.borrow_mut() = true;
                up4.open();
                match kill_what {
                    0 => {
                        count("conn_dropped");
                        kill(server_task)
                    }
                    1 => {
                        count("conn_dropped");
                        kill(client_task)
                    }
                    _ => {
                        // the client's runtime goes away
                        count("executor_dropped");
                        kill_group(3);
                        kill(client_task);
                    }
                }
            }
        }
        if let Some(g) = g_at {
            if s >= g as u64 && !gdone && !cmd.borrow().done && !*killed2.borrow() {
                gdone = true;
                let mut sh = sh4.borrow_mut();
                sh.graceful = true;
                sh.calls_at_graceful = sh.calls.len();
                let mut c = cmd.borrow_mut();
                c.graceful = true;
                if let Some(w) = c.waker.take() {
                    drop(c);
                    drop(sh);
                    w.wake();
                }
            }
        }
        false
    };
    let lim = || Limits { max_steps: 600_000, horizon: 3600 * SEC };
    let end = run(lim(), stop);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 1 ended with {end:?} after {} steps", with(|w| w.steps)));
        return;
    }
    let mut c = Ctx { reqs, resps, sh: sh.clone(), conn, killed: *killed.borrow(), client: cs, server: ss, probe: false };
    with(|w| {
        w.pull_bound = None;
        w.read_bound = None;
    });
    if stalemate(conn) {
        return;
    }
    judge(&c);
    if violated() {
        return;
    }
    let calmed = with(|w| w.stats.contains_key("enhance_your_calm"));
    let calm = !c.killed && !sh.borrow().graceful && !net::any_fault_fired(conn) && !calmed;
    if keep_handle && calm {
        *do_probe.borrow_mut() = true;
        c.probe = true;
        c.reqs.push(probe_req);
        c.resps.push(probe_resp);
        count("probe_exchanges");
    }
    probe_gate.open();
    let end = run(lim(), || false);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 2 ended with {end:?}"));
        return;
    }
    if stalemate(conn) {
        return;
    }
    if c.probe {
        judge(&c);
        if violated() {
            return;
        }
    }
    gate.open();
    let end = run(lim(), || false);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 3 ended with {end:?}"));
        return;
    }
    if stalemate(conn) {
        return;
    }
    if !task_done(caller) && !with(|w| w.stats.contains_key("abandoned_while_sending")) {
        violate("caller-stuck", "all is over but a caller is still waiting".into());
        return;
    }
    judge(&c);
    if violated() {
        return;
    }
    let calmed = with(|w| w.stats.contains_key("enhance_your_calm"));
    let stuck = with(|w| w.stats.contains_key("abandoned_while_sending"));
    if !calmed && !c.killed && !stuck && !net::any_fault_fired(conn) {
        let s = sh.borrow();
        // whoever is still writing when the other side has closed may see that
            let cl = matches!(s.client_result, Some(Ok(()))) || matches!(&s.client_result, Some(Err(e)) if (e.contains("BrokenPipe") || e.contains("ConnectionReset")) && dir(conn, 1, |x| x.shutdown_called));
        let sl = matches!(s.server_result, Some(Ok(()))) || late(c.conn, &s);
        if !cl || !sl {
            violate("conn-error", format!("nothing failed but the client ended {:?} and the server {:?}", s.client_result, s.server_result));
            return;
        }
        drop(s);
        for d in 0..2 {
            if !dir(conn, d, |x| x.shutdown_called || x.werr.is_some()) && !dir(conn, 1 - d, |x| x.shutdown_called) {
                violate("no-shutdown", format!("side {d} ended without shutting its transport down"));
                return;
            }
        }
    }
    if stuck {
        return;
    }
    released(client_task, conn, 0, &[1, 2, 3, 7]);
    if violated() {
        return;
    }
    released(server_task, conn, 1, &[4, 5, 7]);
    if sh.borrow().active != 0 {
        violate("service-leak", format!("{} service calls still alive", sh.borrow().active));
    }
}

// ---- oracle ------------------------------------------------------------------

/// Both directions of the transport are full and both ends wait to write: the
/// h2 crate does not read while a control frame of its own waits for room, so
/// small transport buffers can lock two of its connections up. Hyper has no
/// hand in that.
pub fn stalemate(conn: usize) -> bool {
    let b = (0..2).all(|d| dir(conn, d, |x| x.wr.is_some()));
    if b {
        count("transport_stalemates");
    }
    b
}

/// The server's last write met a transport that the client had already closed.
fn late(conn: usize, s: &Shared) -> bool {
    let e = |r: &Option<Result<(), String>>| matches!(r, Some(Err(e)) if e.contains("BrokenPipe") || e.contains("ConnectionReset"));
    e(&s.server_result) && dir(conn, 0, |x| x.shutdown_called)
}

fn judge(c: &Ctx) {
    let s = c.sh.borrow();
    let out0 = dir(c.conn, 0, |d| d.written.clone());
    let out1 = dir(c.conn, 1, |d| d.written.clone());
    let fired = net::any_fault_fired(c.conn);
    let f0 = frames(&out0, PREFACE.len());
    let f1 = frames(&out1, 0);
    tell_frames(&f0, &out0, "client");
    tell_frames(&f1, &out1, "server");
    // the h2 crate's own defence against many tiny frames
    let calmed = [(&f0, &out0), (&f1, &out1)].iter().any(|(fs, o)| fs.iter().any(|f| f.kind == 7 && be32(&o[f.off + 4..]) == 11));
    // ... and its confusion about trailers of a stream that it refused
    let calmed = calmed
        || f1.iter().any(|f| f.kind == 3 && be32(&out1[f.off..]) == 7)
            && f1.iter().any(|f| f.kind == 7 && be32(&out1[f.off + 4..]) == 1)
            && c.reqs.iter().any(|r| r.body.trailers().is_some());
    let says = |r: &Option<Result<(), String>>| matches!(r, Some(Err(e)) if e.contains("ENHANCE_YOUR_CALM"));
    let calmed = calmed || says(&s.client_result) || says(&s.server_result) || s.outs.iter().any(|o| matches!(&o.result, Some(Res::Err { text, .. }) if text.contains("ENHANCE_YOUR_CALM")));
    if calmed {
        count("enhance_your_calm");
    }
    let gone = (0..2).any(|d| dir(c.conn, d, |x| x.werr_seen) && dir(c.conn, 1 - d, |x| x.shutdown_called));
    let rst = with(|w| w.stats.contains_key("rst_on_drop"));
    let calm = !fired && !c.killed && !calmed && !gone && !rst;
    check_settings(&out0, true, &c.client);
    check_settings(&out1, false, &c.server);
    if violated() {
        return;
    }
    for (fs, peer) in [(&f0, &c.server), (&f1, &c.client)] {
        let max = peer.frame.unwrap_or(16_384).max(16_384) as usize;
        if let Some(f) = fs.iter().find(|f| f.len > max) {
            violate("frame-size", format!("frame {f:?} exceeds the peer's limit {max}"));
            return;
        }
    }
    // requests the server may have refused for lack of slots
    // (the h2 crate may count a stream that its client has reset for longer
    // than that client does)
    let refusals = c.server.mcs.is_some() && f0.iter().chain(&f1).any(|f| f.kind == 3) || c.server.mcs.map_or(false, |m| c.client.imss.unwrap_or(100) > m as usize) || c.client.imss.is_none() && c.server.mcs.is_some();
    let any_cancel = s.outs.iter().any(|o| o.cancelled) || c.reqs.iter().any(|r| matches!(r.read, ReadPlan::Drop | ReadPlan::Frames(_) | ReadPlan::Hold(_)));
    if let Some(m) = c.server.mcs {
        let any_weird = any_cancel || c.reqs.iter().any(|r| !h2_body(&r.body).1) || c.resps.iter().any(|r| !h2_body(&r.body).1 || r.mode != Mode::Answer);
        if !any_weird && calm && s.max_active > m as usize {
            violate("concurrency", format!("{} services ran at once, the limit is {m}", s.max_active));
            return;
        }
    }
    // A caller that lets go of its response while its request body is still
    // being sent leaves the upload running, and that waits for as long as the
    // other side likes (see DESIGN.md).
    let live = |n: String| with(|w| w.bodies.iter().any(|b| !b.dropped && b.name == n));
    let wedged: Vec<bool> = c
        .reqs
        .iter()
        .enumerate()
        .map(|(i, r)| {
            let left = matches!(r.read, ReadPlan::Drop | ReadPlan::Frames(_) | ReadPlan::Hold(_)) && matches!(s.outs[i].result, Some(Res::Ok { .. }));
            // (the answer may have been there when the caller gave up)
            let left = left || s.outs[i].cancelled && s.calls.iter().any(|x| x.req == i && x.finished);
            left && live(format!("req{i}"))
        })
        .collect();
    if wedged.contains(&true) {
        count("abandoned_while_sending");
    }
    // --- calls
    for (k, call) in s.calls.iter().enumerate() {
        let i = call.req;
        if i >= c.reqs.len() || !s.outs[i].submitted {
            violate("unknown-request", format!("service called for {} {}", call.method, call.uri));
            return;
        }
        if s.calls[..k].iter().any(|x| x.req == i) {
            violate("request-twice", format!("request {i} reached the service twice"));
            return;
        }
        let r = &c.reqs[i];
        if call.method != r.method || call.uri != format!("http://example.com{}", r.path) || !call.v2 {
            violate("request-line", format!("request {i}: {} {} became {} {}", r.method, r.path, call.method, call.uri));
            return;
        }
        let mut want = stripped(&r.hdrs, true);
        let (data, ok) = h2_body(&r.body);
        if let Some(n) = r.body.declared() {
            if (n != 0 || !matches!(r.method.as_str(), "GET" | "HEAD" | "DELETE")) && !want.contains_key("content-length") {
                want.insert("content-length".into(), vec![n.to_string().into_bytes()]);
            }
        }
        let mut got = call.hdrs.clone();
        if want.get("content-length").map_or(true, |v| v[0] == b"0") {
            // an explicit zero length is as good as none
            let f = |m: &mut HMap| {
                if m.get("content-length").map_or(false, |v| v.len() == 1 && v[0] == b"0") {
                    m.remove("content-length");
                }
            };
            f(&mut want);
            f(&mut got);
        }
        if want != got {
            violate("request-headers", format!("request {i}: gave [{}] delivered [{}]", show_hmap(&want), show_hmap(&got)));
            return;
        }
        let l = call.log.borrow();
        if !check_body(&format!("request {i}"), &l, &data, ok, r.body.trailers(), r.body.declared()) {
            return;
        }
        let disturbed = !calm || late(c.conn, &s) || s.outs[i].cancelled || !ok || s.client_result.as_ref().map_or(false, |x| x.is_err());
        // the client may also let go of the stream once it has its response
        let early = matches!(r.read, ReadPlan::Drop | ReadPlan::Frames(_) | ReadPlan::Hold(_)) || c.resps[i].mode != Mode::Answer || !h2_body(&c.resps[i].body).1;
        if !disturbed && !early && l.errored() {
            violate("request-body-error", format!("request {i}: complete valid body reported as {:?}", l.end));
            return;
        }
        if calm && l.end == BodyEnd::Open && !wedged.contains(&true) {
            violate("body-stuck", format!("request {i}: its body is still open at quiescence after {} of {} bytes", l.data.len(), data.len()));
            return;
        }
    }
    // --- outcomes
    for (i, r) in c.reqs.iter().enumerate() {
        let o = &s.outs[i];
        let p = &c.resps[i];
        let call = s.calls.iter().find(|x| x.req == i);
        if !o.submitted {
            continue;
        }
        let (rdata, rok) = h2_body(&r.body);
        let (mut pdata, mut pok) = h2_body(&p.body);
        let mut ptr = p.body.trailers();
        if p.read == SRead::Echo {
            pdata = rdata.clone();
            pok = rok;
            ptr = r.body.trailers();
        }
        if o.result.is_none() && !o.cancelled && !wedged.contains(&true) {
            violate("request-unresolved", format!("request {i} has no outcome at quiescence (called: {}, client {:?})", call.is_some(), s.client_result));
            return;
        }
        let Some(res) = &o.result else {
            continue;
        };
        match res {
            Res::Err { flags, text, returned } => {
                if (*returned || flags.canceled) && call.is_some() {
                    violate("returned-but-sent", format!("request {i} was reported as unsent ({text}) but reached the service"));
                    return;
                }
                if flags.canceled && r.try_send && !*returned {
                    violate("not-handed-back", format!("request {i} was never started ({text}) but not handed back"));
                    return;
                }
                if flags.user && rok && !c.killed {
                    violate("blames-caller", format!("request {i} failed as the caller's doing ({text}) though the caller did nothing wrong"));
                    return;
                }
                let refused = refusals && call.is_none() && text.contains("REFUSED_STREAM");
                let expected = !rok || !pok || p.mode != Mode::Answer || refused;
                if calm && !expected && !(s.graceful && call.is_none()) {
                    violate("response-lost", format!("request {i} was to succeed but failed: {text} (called: {})", call.is_some()));
                    return;
                }
            }
            Res::Ok { status, v11, hdrs, .. } => {
                let Some(_call) = call else {
                    violate("response-invented", format!("request {i} got response {status} but never reached the service"));
                    return;
                };
                if p.mode != Mode::Answer {
                    violate("response-invented", format!("request {i} got response {status} but its service never answered"));
                    return;
                }
                if *status != p.status || !*v11 {
                    violate("response-status", format!("request {i}: sent {} delivered {status}", p.status));
                    return;
                }
                let mut want = stripped(&p.hdrs, false);
                let mut got = hdrs.clone();
                let bodiless = r.method == "HEAD" || p.status == 204 || p.status == 304;
                let dates = got.get("date").cloned().unwrap_or_default();
                if !want.contains_key("date") {
                    got.remove("date");
                    let good = dates.len() == 1 && crate::util::parse_date(&dates[0]).is_some();
                    if c.server.date != !dates.is_empty() || (c.server.date && !good) {
                        violate("date", format!("request {i}: dates {dates:?}, automatic dates {}", c.server.date));
                        return;
                    }
                }
                let spec = if p.read == SRead::Echo { r.body.declared() } else { p.body.declared() };
                match (spec, got.get("content-length").cloned()) {
                    (_, Some(v)) if !want.contains_key("content-length") => {
                        let n = spec.map(|n| n.to_string().into_bytes());
                        let echo_cl = p.read == SRead::Echo && v == [rdata.len().to_string().into_bytes()];
                        if !(v.len() == 1 && (Some(&v[0]) == n.as_ref() || (bodiless && v[0] == b"0"))) && !echo_cl {
                            violate("response-headers", format!("request {i}: content-length {v:?} for a body of {spec:?}"));
                            return;
                        }
                        got.remove("content-length");
                    }
                    _ => {}
                }
                if want.get("content-length").map_or(false, |v| v[0] == b"0") {
                    want.remove("content-length");
                    got.remove("content-length");
                }
                if want != got {
                    violate("response-headers", format!("request {i}: gave [{}] delivered [{}]", show_hmap(&want), show_hmap(&got)));
                    return;
                }
                let l = o.log.as_ref().unwrap().borrow();
                // a NO_ERROR reset that crosses the client's own reset of the
                // stream (its request body failed) takes that one's place, and
                // what came after the client's is gone: a clean end all the same
                if pok && !h2_body(&r.body).1
                    && l.clean()
                    && f1.iter().any(|f| f.kind == 3 && be32(&out1[f.off..]) == 0)
                    && spec.map_or(true, |n| n == l.data.len() as u64)
                    && pdata.starts_with(&l.data)
                    && l.trailers.is_none()
                {
                    count("cut_by_crossing_resets");
                    continue;
                }
                if !check_body(&format!("response {i}"), &l, &pdata, pok, ptr, spec) {
                    return;
                }
                if calm && l.errored() && rok && pok {
                    violate("response-body-error", format!("response {i}: complete valid body reported as {:?}", l.end));
                    return;
                }
                if calm && l.end == BodyEnd::Open && !wedged.contains(&true) {
                    violate("body-stuck", format!("response {i}: its body is still open at quiescence after {} of {} bytes", l.data.len(), pdata.len()));
                    return;
                }
            }
        }
    }
    // nothing may still be going on for exchanges that are over
    if calm && s.active > wedged.iter().filter(|x| **x).count() {
        violate("service-leak", format!("{} service calls still alive at quiescence", s.active));
        return;
    }
    if calm && !wedged.contains(&true) {
        let leak = with(|w| w.bodies.iter().find(|b| !b.dropped).map(|b| (b.name.clone(), b.pulled)));
        if let Some((n, p)) = leak {
            violate("body-leak", format!("body {n} ({p} bytes taken) still alive though every exchange is over"));
            return;
        }
    }
    // --- graceful shutdown
    if s.graceful && calm && !late(c.conn, &s) && !wedged.contains(&true) {
        match &s.server_result {
            Some(Ok(())) => {}
            x => {
                violate("graceful-unfinished", format!("after graceful shutdown the server ended {x:?}"));
                return;
            }
        }
        let goaways: Vec<(u32, u32)> = f1.iter().filter(|f| f.kind == 7).map(|f| (be32(&out1[f.off..]) & 0x7fff_ffff, be32(&out1[f.off + 4..]))).collect();
        let Some(&(last, code)) = goaways.last() else {
            if dir(c.conn, 0, |x| x.shutdown_called && x.eof_seen) {
                // the client had already gone
                return;
            }
            violate("graceful-no-goaway", "the server shut down gracefully without GOAWAY".into());
            return;
        };
        if code != 0 {
            violate("graceful-goaway", format!("GOAWAY code {code}"));
            return;
        }
        let any_rst = f0.iter().any(|f| f.kind == 3) || f1.iter().any(|f| f.kind == 3 && matches!(be32(&out1[f.off..]), 1 | 7));
        let mut ids: Vec<u32> = f0.iter().filter(|f| f.kind == 1).map(|f| f.sid).collect();
        ids.dedup();
        ids.sort();
        ids.dedup();
        let below = ids.iter().filter(|x| **x <= last).count();
        if !any_rst && s.calls.len() != below {
            violate("graceful-mark", format!("GOAWAY promises streams up to {last} ({below} requests), {} reached the service", s.calls.len()));
            return;
        }
        if s.calls.len() > below && !any_cancel {
            violate("graceful-extra", format!("GOAWAY covers {below} requests, {} reached the service", s.calls.len()));
        }
    }
}

/// Waits until the client has acknowledged the server's settings. The h2 crate
/// never reopens a stream window that its own first settings have made
/// negative, so data sent ahead of them wedges a stream with a small window;
/// hyper has no hand in that.
pub async fn settled(conn: usize) {
    let mut d = 20;
    while d < 20 * SEC && !dir(conn, 0, |x| frames(&x.written, PREFACE.len()).iter().any(|f| f.kind == 4 && f.flags & 1 == 1)) {
        sleep(d).await;
        d *= 2;
    }
}

/// A reader's log against what was offered.
fn check_body(who: &str, l: &BodyLog, data: &[u8], ok: bool, tr: Option<http::HeaderMap>, declared: Option<u64>) -> bool {
    if !data.starts_with(&l.data) {
        violate("body", format!("{who}: offered {} delivered {}", shorten(data), shorten(&l.data)));
        return false;
    }
    if let Some((n, t)) = l.claimed_at {
        // an end may only be claimed once everything has arrived
        if !ok || n != data.len() || t != tr.is_some() {
            violate("end-stream-lie", format!("{who}: is_end_stream() after {n} of {} bytes (trailers: {t} of {})", data.len(), tr.is_some()));
            return false;
        }
    }
    if l.clean() {
        if declared.map_or(false, |n| n < data.len() as u64 && n == l.data.len() as u64) {
            // exactly what was declared of a body with more than that: the h2
            // crate may forget about the excess when the stream is reset
            // without an error afterwards
            return true;
        }
        if !ok {
            violate("failed-body-complete", format!("{who}: its body failed or lied, yet it ended cleanly after {} bytes", l.data.len()));
            return false;
        }
        if l.data.len() != data.len() {
            violate("truncated-clean", format!("{who}: clean end after {} of {} bytes", l.data.len(), data.len()));
            return false;
        }
        let (w, g) = (tr.map(|t| hmap_http(&t)).unwrap_or_default(), l.trailers.as_ref().map(hmap_http).unwrap_or_default());
        if w != g {
            violate("trailers", format!("{who}: sent [{}] delivered [{}]", show_hmap(&w), show_hmap(&g)));
            return false;
        }
    }
    true
}
