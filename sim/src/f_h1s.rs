//! Family h1s: a real hyper HTTP/1 server connection against a scripted raw
//! client on the simulated transport.
use crate::body::*;
use crate::core::*;
use crate::gen::*;
use crate::h1ref::*;
use crate::net::{self, *};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug, PartialEq)]
pub enum Bad {
    No,
    /// the head must be refused with one of these (empty: no status promised)
    Head(&'static str, Vec<u16>),
    /// the head is fine, the body is not; this many body bytes precede the fault
    Body(&'static str, usize),
}

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub target: String,
    pub v11: bool,
    pub hdrs: Hdrs,
    pub framing: Framing,
    pub body: Vec<u8>,
    pub trailers: Hdrs,
    pub expect: bool,
    pub te_cl: bool,
    pub wire: Vec<u8>,
    pub head_len: usize,
    pub bad: Bad,
    pub wants_close: bool,
    pub te_trailers: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum ReadPlan {
    All,
    /// drop the body unread
    Drop,
    /// read this many frames, then drop
    Frames(u32),
    /// answer first, a side task reads the body
    Side(u64),
    /// answer first, keep the body for this long, then drop it
    Hold(u64),
}
#[derive(Clone, Debug)]
pub struct Resp {
    pub status: u16,
    pub reason: Option<&'static str>,
    pub hdrs: Hdrs,
    pub body: BodySpec,
    pub conn: &'static str,
    pub echo: bool,
    pub own_date: bool,
    pub trailer_names: Vec<String>,
    pub explicit_len: bool,
}
#[derive(Clone, Debug)]
pub struct Plan {
    pub read: ReadPlan,
    pub pre: u64,
    pub post: u64,
    pub fail: bool,
    pub resp: Resp,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub method: String,
    pub target: String,
    pub v11: bool,
    pub hdrs: HMap,
    pub log: Option<LogRef>,
    /// the body was polled / gave a frame before the answer
    pub polled: bool,
    pub got_frame: bool,
    pub answered: bool,
    pub answered_at_step: u64,
    pub called_at_step: u64,
    pub body_id: Option<usize>,
    pub finished: bool,
    pub upgrade_ext: bool,
}

#[derive(Default)]
pub struct Shared {
    pub calls: Vec<Call>,
    pub in_service: u32,
    pub conn_result: Option<Result<(), String>>,
    pub conn_done_at: u64,
    pub conn_err_flags: ErrFlags,
}
#[derive(Default, Clone, Copy, Debug)]
pub struct ErrFlags {
    pub parse: bool,
    pub user: bool,
    pub incomplete: bool,
    pub timeout: bool,
    pub closed: bool,
    pub canceled: bool,
    pub body_write_aborted: bool,
    pub shutdown: bool,
    pub too_large: bool,
}
pub fn flags(e: &hyper::Error) -> ErrFlags {
    ErrFlags {
        parse: e.is_parse(),
        user: e.is_user(),
        incomplete: e.is_incomplete_message(),
        timeout: e.is_timeout(),
        closed: e.is_closed(),
        canceled: e.is_canceled(),
        body_write_aborted: e.is_body_write_aborted(),
        shutdown: e.is_shutdown(),
        too_large: e.is_parse_too_large(),
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Send(Vec<u8>),
    /// wait until this many final responses were read
    Wait(usize),
    /// wait until a 100 for, or the final response to, request n
    Wait100(usize),
    Sleep(u64),
    HalfClose,
    /// skip the next op unless a 100 arrived for request n
    IfContinue(usize),
}

#[derive(Default)]
pub struct ClientState {
    pub buf: Vec<u8>,
    pub finals: usize,
    pub conts: Vec<usize>,
    pub eof: bool,
    pub err: bool,
    pos: usize,
    wakers: Vec<Waker>,
    pub stop_reading: bool,
    pub script_done: bool,
    pub parse_err: bool,
}
impl ClientState {
    fn wake(&mut self) {
        for w in self.wakers.drain(..) {
            w.wake();
        }
    }
    fn absorb(&mut self, methods: &[String]) {
        if self.parse_err {
            return;
        }
        loop {
            if self.pos >= self.buf.len() && !self.eof {
                break;
            }
            let m = methods.get(self.finals).map(|s| s.as_str()).unwrap_or("GET");
            match parse_response(&self.buf, self.pos, m, self.eof) {
                Ok(m) if m.complete && m.head_done => {
                    if m.status() == 100 {
                        self.conts.push(self.finals);
                    } else {
                        self.finals += 1;
                    }
                    self.pos = m.end;
                    if m.framing == Framing::Eof {
                        break;
                    }
                }
                Ok(_) => break,
                Err(_) => {
                    self.parse_err = true;
                    break;
                }
            }
        }
    }
}

pub async fn wait_state<R>(st: &Rc<RefCell<ClientState>>, mut f: impl FnMut(&ClientState) -> Option<R>) -> R {
    std::future::poll_fn(|cx| {
        let mut s = st.borrow_mut();
        match f(&s) {
            Some(r) => Poll::Ready(r),
            None => {
                s.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    })
    .await
}

pub async fn client_reader(sock: Rc<Sock>, st: Rc<RefCell<ClientState>>, methods: Vec<String>, pauses: Vec<(usize, u64)>) {
    let mut pauses: VecDeque<(usize, u64)> = pauses.into();
    loop {
        if let Some((at, d)) = pauses.front().copied() {
            if st.borrow().buf.len() >= at {
                pauses.pop_front();
                count("reader_pauses");
                sleep(d).await;
            }
        }
        match sock.read(16384).await {
            Ok(v) if v.is_empty() => {
                let mut s = st.borrow_mut();
                s.eof = true;
                s.absorb(&methods);
                s.wake();
                return;
            }
            Ok(v) => {
                let mut s = st.borrow_mut();
                s.buf.extend_from_slice(&v);
                s.absorb(&methods);
                s.wake();
            }
            Err(_) => {
                let mut s = st.borrow_mut();
                s.err = true;
                s.wake();
                return;
            }
        }
    }
}

pub async fn client_writer(sock: Rc<Sock>, st: Rc<RefCell<ClientState>>, ops: Vec<Op>) {
    let mut it = ops.into_iter();
    while let Some(op) = it.next() {
        match op {
            Op::Send(b) => {
                if sock.write_all(&b).await.is_err() {
                    break;
                }
            }
            Op::Wait(n) => {
                let go = wait_state(&st, |s| if s.finals >= n { Some(true) } else if s.eof || s.err { Some(false) } else { None }).await;
                if !go {
                    break;
                }
            }
            Op::Wait100(n) => {
                wait_state(&st, |s| {
                    if s.conts.contains(&n) || s.finals > n || s.eof || s.err {
                        Some(())
                    } else {
                        None
                    }
                })
                .await;
            }
            Op::IfContinue(n) => {
                if !st.borrow().conts.contains(&n) {
                    break;
                }
            }
            Op::Sleep(d) => sleep(d).await,
            Op::HalfClose => {
                let _ = sock.shutdown().await;
            }
        }
    }
    st.borrow_mut().script_done = true;
}

// ---- generation -----------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Cfg {
    pub keep_alive: bool,
    pub half_close: bool,
    pub max_buf: Option<usize>,
    pub writev: Option<bool>,
    pub title_case: bool,
    pub preserve: bool,
    pub auto_date: bool,
    pub max_headers: Option<usize>,
    pub lenient: Lenient,
}
pub const DEFAULT_BUF: usize = 8192 + 4096 * 100;
pub fn draw_cfg() -> Cfg {
    Cfg {
        keep_alive: !wc(1, 8),
        half_close: wc(1, 3),
        max_buf: pick(&[None, None, Some(8192), Some(10_000), Some(65_536)]),
        writev: pick(&[None, None, Some(true), Some(false)]),
        title_case: wc(1, 5),
        preserve: wc(1, 6),
        auto_date: !wc(1, 4),
        max_headers: pick(&[None, None, None, Some(30), Some(200)]),
        lenient: if wc(1, 10) { Lenient { skip: wc(1, 2), gaps: wc(1, 2), ..Lenient::default() } } else { Lenient::default() },
    }
}

fn insert_at(h: &mut Hdrs, n: &str, v: &[u8]) {
    let i = wd(h.len() as u32 + 1) as usize;
    h.insert(i, (n.to_string(), v.to_vec()));
}

pub fn gen_req(id: u32, focus: &str) -> Req {
    let v11 = !wc(1, 8);
    let with_body = ww(&[3, 4]) == 1;
    let method = if with_body {
        pick(&["POST", "PUT", "PATCH", "GET", "DELETE", "FOO-BAR"]).to_string()
    } else {
        pick(&["GET", "GET", "HEAD", "OPTIONS", "DELETE", "POST", "M!#$%&'*+"]).to_string()
    };
    let target = if method == "OPTIONS" && wc(1, 2) {
        "*".to_string()
    } else {
        match ww(&[6, 2, 1]) {
            0 => format!("/r{id}"),
            1 => format!("/r{id}/a%20b;c=d?q={}&x=%ff", header_len_token()),
            _ => format!("http://example.com:81/r{id}?y"),
        }
    };
    let mut hdrs = plain_headers(4);
    if v11 || wc(1, 2) {
        hdrs.insert(0, ("host".into(), b"example.com".to_vec()));
    }
    let mut body = Vec::new();
    let mut framing = Framing::None;
    let mut trailers: Hdrs = Vec::new();
    if with_body {
        let n = if focus == "C16" { wr(20_000, 300_000) as usize } else { body_len() };
        body = content(id, n);
        if v11 && wc(1, 2) {
            framing = Framing::Chunked;
            if wc(1, 3) {
                let n = wr(1, 3);
                for k in 0..n {
                    trailers.push((format!("x-trailer-{}", again(k)), header_value()));
                }
            }
        } else {
            framing = Framing::Len(n as u64);
        }
    }
    let mut te_cl = false;
    match &framing {
        Framing::Len(n) => {
            let v = if wc(1, 12) { format!("0{n}") } else { n.to_string() };
            insert_at(&mut hdrs, "content-length", v.as_bytes());
            if wc(1, 16) {
                // an equal duplicate is still unambiguous
                insert_at(&mut hdrs, "content-length", v.as_bytes());
            }
        }
        Framing::Chunked => {
            insert_at(&mut hdrs, "transfer-encoding", pick(&[&b"chunked"[..], b"Chunked", b"gzip, chunked"]));
            if wc(1, 12) {
                te_cl = true;
                insert_at(&mut hdrs, "content-length", pick(&[&b"3"[..], b"0", b"100000"]));
            }
        }
        _ => {}
    }
    let expect = wc(1, if focus == "C14" { 1 } else { 6 }) && with_body;
    if expect {
        insert_at(&mut hdrs, "expect", pick(&[&b"100-continue"[..], b"100-Continue"]));
    }
    let te_trailers = wc(1, 4);
    if te_trailers {
        insert_at(&mut hdrs, "te", pick(&[&b"trailers"[..], b"gzip, Trailers"]));
    }
    let mut wants_close = !v11;
    let cw: &[u32] = if focus == "C08" { &[3, 2, 2, 1, 1, 1, 1] } else { &[9, 1, 1, 1, 1, 1, 1] };
    match ww(cw) {
        1 => {
            wants_close = true;
            insert_at(&mut hdrs, "connection", b"close");
        }
        2 => {
            wants_close = false;
            insert_at(&mut hdrs, "connection", pick(&[&b"keep-alive"[..], b"Keep-Alive"]));
        }
        3 => {
            wants_close = true;
            insert_at(&mut hdrs, "connection", pick(&[&b"x-a, close"[..], b"Close,x-b", b"keep-alive, close"]));
        }
        4 => {
            insert_at(&mut hdrs, "connection", b"x-a");
        }
        5 => {
            // "close" on one line, something else on another
            wants_close = true;
            hdrs.push(("connection".into(), b"close".to_vec()));
            hdrs.push(("connection".into(), pick(&[&b"x-a"[..], b"keep-alive"]).to_vec()));
        }
        6 => {
            wants_close = true;
            hdrs.push(("connection".into(), pick(&[&b"x-a"[..], b"keep-alive"]).to_vec()));
            hdrs.push(("connection".into(), b"close".to_vec()));
        }
        _ => {}
    }
    if te_cl {
        wants_close = true;
    }
    let mut r = Req {
        method,
        target,
        v11,
        hdrs,
        framing,
        body,
        trailers,
        expect: expect && v11,
        te_cl,
        wire: Vec::new(),
        head_len: 0,
        bad: Bad::No,
        wants_close,
        te_trailers,
    };
    encode_req(&mut r, Lenient::default());
    r
}
fn gen_small(id: u32, bodies: bool) -> Req {
    let n = if bodies && wc(1, 3) { wr(1, 12) as usize } else { 0 };
    let mut r = Req {
        method: if n > 0 { "POST" } else { pick(&["GET", "GET", "HEAD"]) }.to_string(),
        target: format!("/r{id}"),
        v11: true,
        hdrs: vec![("host".into(), b"a".to_vec())],
        framing: if n > 0 { Framing::Len(n as u64) } else { Framing::None },
        body: content(id, n),
        trailers: Vec::new(),
        expect: false,
        te_cl: false,
        wire: Vec::new(),
        head_len: 0,
        bad: Bad::No,
        wants_close: false,
        te_trailers: false,
    };
    if n > 0 {
        r.hdrs.push(("content-length".into(), n.to_string().into_bytes()));
    }
    encode_req(&mut r, Lenient::default());
    r
}
fn header_len_token() -> String {
    let n = wr(1, 40) as usize;
    String::from_utf8(content(wd(300) * 3, n)).unwrap()
}
fn encode_req(r: &mut Req, len: Lenient) {
    let mut out = Vec::new();
    if wc(1, 16) {
        // empty lines before the request line are to be skipped
        out.extend_from_slice(b"\r\n");
    }
    out.extend_from_slice(format!("{}{}{}{}HTTP/1.{}\r\n", r.method, len.gap(), r.target, len.gap(), r.v11 as u8).as_bytes());
    write_lenient(&mut out, &r.hdrs, len);
    out.extend_from_slice(b"\r\n");
    r.head_len = out.len();
    match r.framing {
        Framing::Chunked => write_chunked(&mut out, &r.body, &r.trailers),
        _ => out.extend_from_slice(&r.body),
    }
    r.wire = out;
}

/// A request that must not be accepted as complete and valid.
pub fn gen_bad(id: u32) -> Req {
    let mut r = gen_req(id, "bad");
    r.te_cl = false;
    let k = wd(35);
    let line = |s: &str| -> Vec<u8> { s.as_bytes().to_vec() };
    let mut head: Option<(&'static str, Vec<u8>, Vec<u16>)> = None;
    let t = format!("/bad{id}");
    let mut bodybad: Option<(&'static str, Vec<u8>, usize, Vec<u8>)> = None;
    let post = format!("POST {t} HTTP/1.1\r\nhost: h\r\ntransfer-encoding: chunked\r\n\r\n").into_bytes();
    let b = content(id, 40);
    let chunk = |b: &[u8]| -> Vec<u8> {
        let mut v = format!("{:x}\r\n", b.len()).into_bytes();
        v.extend_from_slice(b);
        v.extend_from_slice(b"\r\n");
        v
    };
    match k {
        0 => head = Some(("method-char", line(&format!("G@T {t} HTTP/1.1\r\nhost: h\r\n\r\n")), vec![400])),
        1 => head = Some(("version", line(&format!("GET {t} HTTP/3.7\r\nhost: h\r\n\r\n")), vec![400])),
        2 => head = Some(("no-colon", line(&format!("GET {t} HTTP/1.1\r\nhost h\r\n\r\n")), vec![400])),
        3 => head = Some(("space-in-name", line(&format!("GET {t} HTTP/1.1\r\nho st: h\r\n\r\n")), vec![400])),
        4 => head = Some(("space-before-colon", line(&format!("POST {t} HTTP/1.1\r\nContent-Length : 5\r\n\r\nabcde")), vec![400])),
        5 => head = Some(("obs-fold", line(&format!("GET {t} HTTP/1.1\r\nhost: h\r\n folded: x\r\n\r\n")), vec![400])),
        6 => head = Some(("nul-in-value", b"GET /bad HTTP/1.1\r\nhost: a\0b\r\n\r\n".to_vec(), vec![400])),
        7 => head = Some(("cl-text", line(&format!("POST {t} HTTP/1.1\r\ncontent-length: abc\r\n\r\nabcde")), vec![400])),
        8 => head = Some(("cl-plus", line(&format!("POST {t} HTTP/1.1\r\ncontent-length: +5\r\n\r\nabcde")), vec![400])),
        9 => head = Some(("cl-minus", line(&format!("POST {t} HTTP/1.1\r\ncontent-length: -5\r\n\r\nabcde")), vec![400])),
        10 => head = Some(("cl-differ", line(&format!("POST {t} HTTP/1.1\r\ncontent-length: 5\r\nx-a: b\r\ncontent-length: 6\r\n\r\nabcdef")), vec![400])),
        11 => head = Some(("cl-overflow", line(&format!("POST {t} HTTP/1.1\r\ncontent-length: 99999999999999999999999\r\n\r\nabcdef")), vec![400, 413])),
        12 => head = Some(("te-identity", line(&format!("POST {t} HTTP/1.1\r\ntransfer-encoding: identity\r\n\r\nabc")), vec![400, 501])),
        13 => head = Some(("te-not-last", line(&format!("POST {t} HTTP/1.1\r\ntransfer-encoding: chunked, gzip\r\n\r\n0\r\n\r\n")), vec![400, 501])),
        14 => head = Some(("te-http10", line(&format!("POST {t} HTTP/1.0\r\ntransfer-encoding: chunked\r\n\r\n0\r\n\r\n")), vec![400])),
        15 => head = Some(("te-split", line(&format!("POST {t} HTTP/1.1\r\ntransfer-encoding: chunked\r\ntransfer-encoding: gzip\r\n\r\n0\r\n\r\n")), vec![400, 501])),
        16 => head = Some(("ctl-in-target", b"GET /ba\x01d HTTP/1.1\r\nhost: h\r\n\r\n".to_vec(), vec![400])),
        17 => head = Some(("name-colon-only", line(&format!("GET {t} HTTP/1.1\r\n: x\r\n\r\n")), vec![400])),
        18 => head = Some(("cl-empty", line(&format!("POST {t} HTTP/1.1\r\ncontent-length: \r\n\r\n")), vec![400])),
        19 => head = Some(("cl-hex", line(&format!("POST {t} HTTP/1.1\r\ncontent-length: 0x5\r\n\r\nabcde")), vec![400])),
        20 => bodybad = Some(("chunk-size-char", post, 0, b"zz\r\n".to_vec())),
        21 => bodybad = Some(("chunk-size-empty", post, 0, b"\r\nabc".to_vec())),
        22 => {
            let mut v = format!("{:x}\r\n", b.len()).into_bytes();
            v.extend_from_slice(&b);
            v.extend_from_slice(b"XX0\r\n\r\n");
            bodybad = Some(("chunk-no-crlf", post, b.len(), v));
        }
        23 => {
            let mut v = chunk(&b);
            v.extend_from_slice(b"fffffffffffffffff\r\nabc");
            bodybad = Some(("chunk-size-overflow", post, b.len(), v));
        }
        24 => {
            let mut v = chunk(&b);
            v.extend_from_slice(b"5;a\nb\r\nabcde\r\n0\r\n\r\n");
            bodybad = Some(("chunk-ext-lf", post, b.len(), v));
        }
        25 => {
            let mut v = chunk(&b);
            v.extend_from_slice(b"0\r\nbad trailer\r\n\r\n");
            bodybad = Some(("trailer-syntax", post, b.len(), v));
        }
        26 => {
            let mut v = chunk(&b);
            v.extend_from_slice(b"-5\r\nabcde\r\n0\r\n\r\n");
            bodybad = Some(("chunk-size-minus", post, b.len(), v));
        }
        27 => {
            let mut v = chunk(&b);
            v.extend_from_slice(b"5 5\r\nabcde\r\n0\r\n\r\n");
            bodybad = Some(("chunk-size-space-digit", post, b.len(), v));
        }
        28 => {
            let mut v = chunk(&b);
            v.extend_from_slice(b"5\nabcde\r\n0\r\n\r\n");
            bodybad = Some(("chunk-size-bare-lf", post, b.len(), v));
        }
        k if k > 29 => {
            let (n, v) = spoiled_chunks(&b);
            bodybad = Some((n, post, b.len(), v));
        }
        _ => {
            let mut v = chunk(&b);
            v.extend_from_slice(b"0x5\r\nabcde\r\n0\r\n\r\n");
            bodybad = Some(("chunk-size-0x", post, b.len(), v));
        }
    }
    r.hdrs.clear();
    r.trailers.clear();
    r.expect = false;
    r.v11 = true;
    r.te_trailers = false;
    if let Some((name, bytes, st)) = head {
        r.head_len = bytes.len();
        r.wire = bytes;
        r.bad = Bad::Head(name, st);
        r.body.clear();
        r.framing = Framing::None;
    } else if let Some((name, h, n, rest)) = bodybad {
        r.method = "POST".into();
        r.target = t;
        r.hdrs = vec![("host".into(), b"h".to_vec()), ("transfer-encoding".into(), b"chunked".to_vec())];
        r.head_len = h.len();
        r.body = b[..n].to_vec();
        r.framing = Framing::Chunked;
        r.wire = h;
        r.wire.extend_from_slice(&rest);
        r.bad = Bad::Body(name, n);
        r.wants_close = true;
    }
    r
}

pub fn gen_resp(id: u32, req: &Req, focus: &str) -> Resp {
    let status = pick(&[200u16, 200, 200, 201, 206, 404, 500, 299, 204, 304]);
    let n = if focus == "C16" { wr(20_000, 300_000) as usize } else { body_len() };
    let data = content(id + 5000, n);
    let slow = wc(1, 3);
    let mut steps = if wc(1, 6) { Vec::new() } else { if focus == "C16" { big_steps(&data) } else { body_steps(&data, slow) } };
    let mut hdrs = plain_headers(3);
    let mut trailer_names = Vec::new();
    let hint = match ww(&[5, 4, 1, 1]) {
        0 => Hint::Exact,
        1 => Hint::Unknown,
        2 => Hint::Lower,
        _ => Hint::Upper,
    };
    if hint != Hint::Exact && wc(1, 3) {
        let k = wr(1, 3);
        let mut t: Hdrs = Vec::new();
        for i in 0..k {
            t.push((format!("x-resp-trailer-{}", again(i)), header_value()));
        }
        if wc(3, 4) {
            trailer_names = t.iter().map(|x| x.0.clone()).collect();
            if wc(1, 4) {
                trailer_names.truncate(1);
            }
            if trailer_names.len() > 1 && wc(1, 3) {
                for n in &trailer_names {
                    hdrs.push(("trailer".into(), n.clone().into_bytes()));
                }
            } else {
                hdrs.push(("trailer".into(), trailer_names.join(", ").into_bytes()));
            }
        }
        if wc(1, 3) {
            steps.push(Step::Yield);
        }
        steps.push(Step::Trailers(to_http(&t)));
    }
    let mut body = BodySpec { steps, hint, eos: !wc(1, 3) };
    // failing, short and overlong bodies
    let fw: &[u32] = if focus == "C06" { &[2, 3, 3, 2] } else { &[30, 1, 1, 1] };
    let plain_status = status != 204 && status != 304;
    match ww(fw) {
        1 => {
            let k = wd(body.steps.len() as u32 + 1) as usize;
            if body.hint == Hint::Exact {
                let l = body.len();
                body.hint = Hint::Lie(l);
            }
            body.steps.truncate(k);
            body.steps.retain(|s| !matches!(s, Step::Trailers(_)));
            body.steps.push(Step::Err);
        }
        2 if hint == Hint::Exact && plain_status && body.len() > 0 => {
            let d = wr(1, 20) as u64;
            body.hint = Hint::Lie(body.len() + d);
        }
        3 if hint == Hint::Exact && plain_status && body.len() > 1 => {
            let d = wr(1, 20) as u64;
            body.hint = Hint::Lie(body.len().saturating_sub(d).max(1));
        }
        _ => {}
    }
    let mut explicit_len = false;
    let says = if focus == "C06" { (1, 5) } else { (1, 40) };
    if plain_status && !body.fails() && body.trailers().is_none() && body.hint == Hint::Unknown && wc(says.0, says.1) {
        // a length field that the body does not keep
        let l = body.len();
        let n = if wc(2, 3) || l < 2 { l + wr(1, 20) as u64 } else { l - wd(20).min(l as u32 - 2) as u64 - 1 };
        body.hint = Hint::Says(n);
        if wc(1, 4) {
            body.steps.clear();
        }
        explicit_len = !(body.eos && body.steps.is_empty());
        hdrs.push(("content-length".into(), n.to_string().into_bytes()));
    } else if plain_status && wc(1, 6) && !body.fails() {
        match body.hint {
            Hint::Exact if body.len() > 0 || req.method == "HEAD" => {
                explicit_len = true;
                hdrs.push(("content-length".into(), body.len().to_string().into_bytes()));
            }
            Hint::Unknown if body.trailers().is_none() && !(body.eos && body.steps.is_empty()) => {
                if wc(1, 2) {
                    explicit_len = true;
                    hdrs.push(("content-length".into(), body.len().to_string().into_bytes()));
                } else {
                    for v in pick(&[&[&b"chunked"[..]][..], &[b"gzip, chunked"], &[b"gzip"], &[b"gzip", b"chunked"], &[b"gzip", b"deflate"]]) {
                        hdrs.push(("transfer-encoding".into(), v.to_vec()));
                    }
                }
            }
            _ => {}
        }
    }
    let own_date = wc(1, 10);
    if own_date {
        hdrs.push(("date".into(), b"Sun, 06 Nov 1994 08:49:37 GMT".to_vec()));
    }
    let cw: &[u32] = if focus == "C08" { &[3, 2, 1, 1] } else { &[16, 1, 1, 1] };
    let conn = match ww(cw) {
        1 => "close",
        2 => "keep-alive",
        3 => "x-thing, close",
        _ => "",
    };
    if !conn.is_empty() {
        hdrs.push(("connection".into(), conn.as_bytes().to_vec()));
    }
    // fields of one name stay in order, names come in any order
    if wc(1, 2) {
        let at = wr(0, hdrs.len().max(1) as u32 - 1) as usize;
        if !hdrs.iter().any(|h| h.0 == "transfer-encoding") {
            hdrs.rotate_left(at);
        }
        let mut k = 0;
        while k + 1 < hdrs.len() {
            if hdrs[k].0 != hdrs[k + 1].0 && wc(1, 3) {
                hdrs.swap(k, k + 1);
            }
            k += 1;
        }
    }
    Resp {
        status,
        reason: if wc(1, 10) { Some("Very Fine \u{e9}") } else { None },
        hdrs,
        body,
        conn,
        echo: false,
        own_date,
        trailer_names,
        explicit_len,
    }
}

pub fn gen_plan(id: u32, req: &Req, focus: &str) -> Plan {
    let mut resp = gen_resp(id, req, focus);
    let read = match ww(if focus == "C14" { &[3, 2, 2, 1, 1] } else if focus == "C16" { &[3, 1, 1, 3, 2] } else { &[8, 2, 1, 1, 1] }) {
        0 => ReadPlan::All,
        1 => ReadPlan::Drop,
        2 => ReadPlan::Frames(wr(1, 3)),
        3 => ReadPlan::Side(wr(0, 3000) as u64 * 1000),
        _ => ReadPlan::Hold(wr(0, 3000) as u64 * 1000),
    };
    let mut fail = false;
    if read == ReadPlan::All && req.method != "HEAD" && wc(1, 6) && resp.status != 204 && resp.status != 304 {
        resp.echo = true;
        resp.hdrs.retain(|(n, _)| n != "content-length" && n != "transfer-encoding" && n != "trailer");
        resp.trailer_names.clear();
        resp.explicit_len = false;
    } else if wc(1, 40) {
        fail = true;
    }
    let d = |n: u32| -> u64 {
        match ww(&[4, 2, 1]) {
            0 => 0,
            1 => wr(1, 50) as u64 * 1000,
            _ => wr(1, n) as u64 * 1000,
        }
    };
    Plan { read, pre: d(5000), post: d(5000), fail, resp }
}

// ---- service --------------------------------------------------------------

struct NowOrYield(u64);
impl NowOrYield {
    async fn go(self) {
        if self.0 > 0 {
            sleep(self.0).await
        }
    }
}

pub fn make_service(
    plans: Rc<Vec<Plan>>,
    sh: Rc<RefCell<Shared>>,
) -> impl Fn(http::Request<hyper::body::Incoming>) -> Pin<Box<dyn Future<Output = Result<http::Response<OutBody>, SimErr>>>> + Clone
{
    move |req: http::Request<hyper::body::Incoming>| {
        let idx = sh.borrow().calls.len();
        let (parts, body) = req.into_parts();
        tr(|| format!("  service call {idx}: {} {}", parts.method, parts.uri));
        note(0x5e41 + idx as u64);
        let steps = with(|w| w.steps);
        {
            let mut s = sh.borrow_mut();
            s.in_service += 1;
            if s.in_service > 1 {
                violate("concurrent-calls", format!("{} service calls at once on one HTTP/1 connection", s.in_service));
            }
            s.calls.push(Call {
                method: parts.method.to_string(),
                target: parts.uri.to_string(),
                v11: parts.version == http::Version::HTTP_11,
                hdrs: hmap_http(&parts.headers),
                log: None,
                polled: false,
                got_frame: false,
                answered: false,
                answered_at_step: 0,
                called_at_step: steps,
                body_id: None,
                finished: false,
                upgrade_ext: parts.extensions.get::<hyper::upgrade::OnUpgrade>().is_some(),
            });
        }
        let plan = plans.get(idx).cloned();
        let sh2 = sh.clone();
        let sh3 = sh.clone();
        let fut = async move {
            let Some(plan) = plan else {
                return Ok(http::Response::new(OutBody::Sim(BodySpec::empty().build("none"))));
            };
            let mut cb = CheckedBody::new(body, format!("req{idx}"));
            sh2.borrow_mut().calls[idx].log = Some(cb.log.clone());
            NowOrYield(plan.pre).go().await;
            if plan.fail {
                count("service_failures");
                return Err(SimErr("service failed"));
            }
            let exact = cb.log.borrow().first_exact;
            let mut out = None;
            if plan.resp.echo {
                let first_exact = if plan.resp.body.hint == Hint::Exact { exact } else { None };
                out = Some(OutBody::Echo(EchoBody { inner: cb, forward_trailers: false, exact: first_exact }));
            } else {
                let track = |sh: &Rc<RefCell<Shared>>, l: &LogRef| {
                    let mut s = sh.borrow_mut();
                    let c = &mut s.calls[idx];
                    if !c.answered && l.borrow().frames > 0 {
                        c.got_frame = true;
                    }
                };
                match plan.read {
                    ReadPlan::All => {
                        sh2.borrow_mut().calls[idx].polled = true;
                        cb.read_all().await;
                        track(&sh2, &cb.log);
                        drop(cb);
                    }
                    ReadPlan::Drop => drop(cb),
                    ReadPlan::Frames(n) => {
                        sh2.borrow_mut().calls[idx].polled = true;
                        for _ in 0..n {
                            match cb.frame().await {
                                Some(Ok(_)) => {}
                                _ => break,
                            }
                        }
                        track(&sh2, &cb.log);
                        drop(cb);
                    }
                    ReadPlan::Side(d) => {
                        let sh4 = sh2.clone();
                        spawn_in(7, "body-reader", async move {
                            hold(d, exact).await;
                            {
                                let c = &mut sh4.borrow_mut().calls[idx];
                                c.polled |= !c.answered;
                            }
                            cb.read_all().await;
                        });
                    }
                    ReadPlan::Hold(d) => {
                        spawn_in(7, "body-holder", async move {
                            hold(d, exact).await;
                            drop(cb);
                        });
                    }
                }
            }
            NowOrYield(plan.post).go().await;
            let mut res = http::Response::new(());
            *res.status_mut() = http::StatusCode::from_u16(plan.resp.status).unwrap();
            *res.headers_mut() = to_http(&plan.resp.hdrs);
            if let Some(r) = plan.resp.reason {
                res.extensions_mut()
                    .insert(hyper::ext::ReasonPhrase::try_from(r.as_bytes()).expect("valid reason"));
            }
            let ob = match out {
                Some(o) => o,
                None => {
                    let b = plan.resp.body.build(format!("resp{idx}"));
                    sh2.borrow_mut().calls[idx].body_id = Some(b.id);
                    OutBody::Sim(b)
                }
            };
            let mut s = sh2.borrow_mut();
            s.calls[idx].answered = true;
            s.calls[idx].answered_at_step = with(|w| w.steps);
            drop(s);
            tr(|| format!("  service call {idx} answers {}", plan.resp.status));
            Ok(res.map(|_| ob))
        };
        Box::pin(Tracked { f: Box::pin(fut), sh: sh3, idx })
    }
}
struct Tracked<F> {
    f: F,
    sh: Rc<RefCell<Shared>>,
    idx: usize,
}
impl<F: Future + Unpin> Future for Tracked<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        Pin::new(&mut self.f).poll(cx)
    }
}
impl<F> Drop for Tracked<F> {
    fn drop(&mut self) {
        if let Ok(mut s) = self.sh.try_borrow_mut() {
            s.in_service -= 1;
            let i = self.idx;
            s.calls[i].finished = true;
        }
    }
}

/// Drives a connection; accepts a graceful-shutdown request from outside.
pub struct Driver<C> {
    pub conn: Pin<Box<C>>,
    pub cmd: Rc<RefCell<Cmd>>,
    pub shut: fn(Pin<&mut C>),
}
#[derive(Default)]
pub struct Cmd {
    pub graceful: bool,
    pub waker: Option<Waker>,
    pub done: bool,
}
impl<C: Future> Future for Driver<C> {
    type Output = C::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<C::Output> {
        let go = {
            let mut c = self.cmd.borrow_mut();
            c.waker = Some(cx.waker().clone());
            std::mem::take(&mut c.graceful)
        };
        if go {
            tr(|| "  graceful_shutdown()".into());
            count("graceful_calls");
            let f = self.shut;
            f(self.conn.as_mut());
        }
        let r = self.conn.as_mut().poll(cx);
        if r.is_ready() {
            self.cmd.borrow_mut().done = true;
        }
        r
    }
}

pub fn server_builder(cfg: &Cfg) -> hyper::server::conn::http1::Builder {
    let mut b = hyper::server::conn::http1::Builder::new();
    b.keep_alive(cfg.keep_alive).half_close(cfg.half_close).auto_date_header(cfg.auto_date);
    if let Some(m) = cfg.max_buf {
        b.max_buf_size(m);
    }
    if let Some(v) = cfg.writev {
        b.writev(v);
    }
    if cfg.title_case {
        b.title_case_headers(true);
    }
    if cfg.preserve {
        b.preserve_header_case(true);
    }
    if let Some(m) = cfg.max_headers {
        b.max_headers(m);
    }
    if cfg.lenient.any() {
        b.ignore_invalid_headers(cfg.lenient.skip).allow_multiple_spaces_in_request_line_delimiters(cfg.lenient.gaps);
    }
    b
}

// ---- oracle ---------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Next {
    Must,
    May,
    Closed,
}

fn headers_expected(r: &Req) -> HMap {
    let mut h = hmap(&r.hdrs);
    if r.te_cl {
        h.remove("content-length");
    }
    if let Some(v) = h.get_mut("content-length") {
        v.truncate(1);
    }
    h
}

/// Compares what the service saw with what was sent.
pub fn check_request(i: usize, r: &Req, c: &Call, full: bool) -> bool {
    if let Bad::Head(n, _) = &r.bad {
        violate("bad-head-delivered", format!("request {i} with a bad head ({n}) reached the service: {}", shorten(&r.wire)));
        return false;
    }
    if c.method != r.method || c.target != r.target || c.v11 != r.v11 {
        violate(
            "request-head",
            format!("request {i}: sent {} {} 1.{} but the service saw {} {} 1.{}", r.method, r.target, r.v11 as u8, c.method, c.target, c.v11 as u8),
        );
        return false;
    }
    let want = headers_expected(r);
    if c.hdrs != want {
        violate("request-headers", format!("request {i}: sent [{}] but the service saw [{}]", show_hmap(&want), show_hmap(&c.hdrs)));
        return false;
    }
    let Some(log) = &c.log else { return true };
    let l = log.borrow();
    if !r.body.starts_with(&l.data) {
        violate("request-body", format!("request {i}: body bytes differ: sent {} saw {}", shorten(&r.body), shorten(&l.data)));
        return false;
    }
    if let Bad::Body(n, _) = &r.bad {
        if l.clean() {
            violate("bad-body-clean", format!("request {i}: malformed body ({n}) ended cleanly"));
            return false;
        }
    } else if l.clean() {
        if l.data.len() != r.body.len() {
            violate("request-body-short", format!("request {i}: clean end after {} of {} bytes", l.data.len(), r.body.len()));
            return false;
        }
        let want = hmap(&r.trailers);
        let got = l.trailers.as_ref().map(hmap_http).unwrap_or_default();
        if want != got {
            violate("request-trailers", format!("request {i}: sent [{}] got [{}]", show_hmap(&want), show_hmap(&got)));
            return false;
        }
    } else if full && l.errored() {
        violate("request-body-error", format!("request {i}: complete valid body reported as {:?}", l.end));
        return false;
    }
    if let (Some(n), Framing::Len(m)) = (l.first_exact, &r.framing) {
        if n != *m {
            violate("size-hint", format!("request {i}: declared {m}, size_hint {n}"));
            return false;
        }
    }
    if l.first_exact.is_none() && matches!(r.framing, Framing::Len(_)) {
        violate("size-hint", format!("request {i}: declared length not reported"));
        return false;
    }
    true
}

/// Whether an outgoing body lets its message be completed.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fin {
    No,
    /// every declared byte was offered before it failed or stalled
    May,
    Yes,
}

/// What a complete response body has to be, and whether it may be completed.
pub fn expected_body(_req: &Req, c: &Call, p: &Plan) -> (Vec<u8>, Fin) {
    if p.resp.echo {
        let l = c.log.as_ref().unwrap().borrow();
        let f = if l.clean() {
            Fin::Yes
        } else if l.first_exact == Some(l.data.len() as u64) {
            Fin::May
        } else {
            Fin::No
        };
        return (l.data.clone(), f);
    }
    out_body(&p.resp.body)
}
pub fn out_body(b: &BodySpec) -> (Vec<u8>, Fin) {
    let mut d = b.data();
    if matches!(b.hint, Hint::Says(_)) && b.eos && b.steps.is_empty() {
        // known to be empty: may be declared as that
        return (d, Fin::Yes);
    }
    let broken = b.fails() || b.hangs();
    match b.declared() {
        Some(n) if (d.len() as u64) < n => (d, Fin::No),
        Some(n) => {
            d.truncate(n as usize);
            (d, if broken { Fin::May } else { Fin::Yes })
        }
        None => (d, if broken { Fin::No } else { Fin::Yes }),
    }
}

pub struct RespCheck {
    pub next: Next,
    pub pos: usize,
    pub complete: bool,
}

/// Checks one response written for call `i`, starting at `pos`.
#[allow(clippy::too_many_arguments)]
pub fn check_response(
    i: usize,
    cfg: &Cfg,
    req: &Req,
    c: &Call,
    p: &Plan,
    out: &[u8],
    pos: usize,
    eof: bool,
    faulty: bool,
    ka_off: bool,
) -> Option<RespCheck> {
    let mut pos = pos;
    let mut conts = 0;
    let m = loop {
        let m = match parse_response(out, pos, &req.method, eof) {
            Ok(m) => m,
            Err(e) => {
                violate("response-syntax", format!("response {i} at byte {pos}: {e}; bytes {}", shorten(&out[pos..])));
                return None;
            }
        };
        if m.head_done && m.status() == 100 && m.complete {
            conts += 1;
            if conts > 1 {
                violate("continue-twice", format!("two 100 responses for request {i}"));
                return None;
            }
            if !req.expect {
                violate("continue-unasked", format!("100 for request {i}, which did not expect it"));
                return None;
            }
            if m.end - m.begin != 25 || !m.hdrs.is_empty() {
                violate("continue-shape", format!("odd 100 response {}", shorten(&out[m.begin..m.end])));
                return None;
            }
            pos = m.end;
            continue;
        }
        break m;
    };
    if c.answered || c.finished {
        if conts == 1 && !c.polled && !p.resp.echo {
            violate("continue-unwanted", format!("100 for request {i} although the service never asked for the body before answering"));
            return None;
        }
        if conts == 0 && c.got_frame && req.expect && m.head_done {
            violate("continue-missing", format!("the service waited for the body of request {i} but no 100 was sent"));
            return None;
        }
    }
    if !m.head_done {
        if m.end > pos && !(eof || faulty) {
            violate("response-partial", format!("response {i} head stays incomplete: {}", shorten(&out[pos..])));
            return None;
        }
        return Some(RespCheck { next: Next::Closed, pos: m.end, complete: false });
    }
    if !c.answered {
        violate("response-unasked", format!("a response was written for request {i}, which the service has not answered: {}", shorten(&out[pos..m.head_end])));
        return None;
    }
    let r = &p.resp;
    let v11 = m.start[0] == "HTTP/1.1";
    if m.status() != r.status || v11 != req.v11 {
        violate("response-status", format!("response {i}: expected {} 1.{}, wrote {} {}", r.status, req.v11 as u8, m.start[0], m.start[1]));
        return None;
    }
    if let Some(x) = r.reason {
        if m.start[2] != x {
            violate("response-reason", format!("response {i}: reason {:?}", m.start[2]));
            return None;
        }
    }
    // every supplied field, nothing else but what the server must add
    let mut got = hmap(&m.hdrs);
    let mut want = hmap(&r.hdrs);
    let got_conn: Vec<String> = tokens(&got.remove("connection").unwrap_or_default());
    let want_conn: Vec<String> = tokens(&want.remove("connection").unwrap_or_default());
    let got_te = tokens(&got.remove("transfer-encoding").unwrap_or_default());
    let want_te = tokens(&want.remove("transfer-encoding").unwrap_or_default());
    let got_cl = got.remove("content-length").unwrap_or_default();
    let want_cl = want.remove("content-length").unwrap_or_default();
    let got_trailer = tokens(&got.remove("trailer").unwrap_or_default());
    let want_trailer = tokens(&want.remove("trailer").unwrap_or_default());
    let got_date = got.remove("date").unwrap_or_default();
    let want_date = want.remove("date").unwrap_or_default();
    if got != want {
        violate("response-headers", format!("response {i}: service gave [{}], wire has [{}]", show_hmap(&want), show_hmap(&got)));
        return None;
    }
    if r.own_date {
        if got_date != want_date {
            violate("date-overridden", format!("response {i}: the service's date became {:?}", got_date));
            return None;
        }
    } else if got_date.len() != cfg.auto_date as usize {
        violate("date-count", format!("response {i}: {} date fields with automatic dates {}", got_date.len(), cfg.auto_date));
        return None;
    } else if cfg.auto_date && crate::util::parse_date(&got_date[0]).is_none() {
        violate("date-format", format!("response {i}: bad date {}", shorten(&got_date[0])));
        return None;
    }
    let bodiless = req.method == "HEAD" || r.status == 204 || r.status == 304;
    if r.explicit_len && !want_cl.is_empty() && got_cl != want_cl {
        violate("response-length-field", format!("response {i}: content-length {:?} became {:?}", want_cl, got_cl));
        return None;
    }
    if !bodiless && v11 && m.framing == Framing::Eof {
        violate("response-framing", format!("response {i} to an HTTP/1.1 request is close-delimited"));
        return None;
    }
    let te_ok = got_te == want_te || (want_te.last().map(|t| t != "chunked").unwrap_or(true) && got_te.split_last().map(|(l, r)| l == "chunked" && r == &want_te[..]).unwrap_or(false));
    if !got_te.is_empty() && !te_ok {
        violate("response-te", format!("response {i}: transfer-encoding {want_te:?} became {got_te:?}"));
        return None;
    }
    if let Some(x) = got_conn.iter().find(|t| !want_conn.contains(t) && *t != "close" && *t != "keep-alive") {
        violate("response-connection", format!("response {i}: connection {want_conn:?} became {got_conn:?} ({x:?} was made up)"));
        return None;
    }
    if v11 && !bodiless && got_trailer != want_trailer {
        violate("response-trailer-field", format!("response {i}: trailer {want_trailer:?} became {got_trailer:?}"));
        return None;
    }
    // body
    let (mut want_body, can_finish) = expected_body(req, c, p);
    if bodiless {
        want_body.clear();
    }
    if let (Framing::Len(n), false) = (&m.framing, bodiless) {
        let decl = if r.echo || matches!(r.body.hint, Hint::Says(_)) && r.body.eos && r.body.steps.is_empty() { None } else { r.body.declared() };
        if let Some(d) = decl {
            if *n != d {
                violate("response-declared", format!("response {i}: declared {d}, wire says {n}"));
                return None;
            }
        }
    }
    if !want_body.starts_with(&m.body) {
        violate("response-body", format!("response {i}: body differs: expected {} wrote {}", shorten(&want_body), shorten(&m.body)));
        return None;
    }
    let close_delim = m.framing == Framing::Eof;
    if m.complete && !bodiless {
        if can_finish == Fin::No && !close_delim {
            violate("failed-body-complete", format!("response {i}: the body failed after {} bytes but the message is complete on the wire", want_body.len()));
            return None;
        }
        if m.body.len() != want_body.len() && !(close_delim && (faulty || can_finish != Fin::Yes)) {
            violate("response-body-short", format!("response {i}: {} of {} body bytes in a complete message", m.body.len(), want_body.len()));
            return None;
        }
        // trailers
        let sent = hmap(&m.trailers);
        let all: HMap = r.body.trailers().filter(|_| !r.echo).map(|t| hmap_http(&t)).unwrap_or_default();
        let allowed: HMap = all.into_iter().filter(|(n, _)| want_trailer.contains(n)).collect();
        let required = req.te_trailers && m.framing == Framing::Chunked;
        if required && sent != allowed || !required && !sent.is_empty() && sent != allowed {
            violate("response-trailers", format!("response {i}: expected [{}] wrote [{}]", show_hmap(&allowed), show_hmap(&sent)));
            return None;
        }
    }
    // persistence
    let says_close = got_conn.iter().any(|t| t == "close");
    let says_ka = got_conn.iter().any(|t| t == "keep-alive");
    let svc_close = want_conn.iter().any(|t| t == "close");
    for t in &want_conn {
        // fields the server may replace when it decides about persistence
        if !got_conn.contains(t) && t == "close" {
            violate("response-connection", format!("response {i}: connection {want_conn:?} became {got_conn:?}"));
            return None;
        }
    }
    let must_close = !cfg.keep_alive || req.wants_close || svc_close || close_delim || ka_off;
    if must_close && req.v11 && !says_close && req.bad == Bad::No {
        violate("close-unannounced", format!("response {i} is the last on this connection but says connection {got_conn:?}"));
        return None;
    }
    if must_close && !req.v11 && says_ka && !close_delim && !want_conn.iter().any(|t| t == "keep-alive") {
        violate("keepalive-promised", format!("response {i} promises keep-alive but the connection must close"));
        return None;
    }
    let body_done = matches!(req.framing, Framing::None | Framing::Len(0)) || c.log.as_ref().map_or(false, |l| l.borrow().clean());
    if !must_close && !faulty && body_done && !req.v11 && !says_ka && !says_close {
        violate("keepalive-unannounced", format!("response {i}: HTTP/1.0 persistence was asked for, allowed, and not confirmed"));
        return None;
    }
    if !m.complete && !faulty && can_finish == Fin::Yes && eof {
        violate("response-truncated", format!("response {i} ends after {} of {} body bytes", m.body.len(), want_body.len()));
        return None;
    }
    let body_read = match &c.log {
        Some(l) => l.borrow().clean(),
        None => false,
    };
    let no_body = match req.framing {
        Framing::None => true,
        Framing::Len(0) => true,
        _ => false,
    };
    let can_finish = if bodiless && can_finish == Fin::No { Fin::May } else { can_finish };
    let next = if must_close || !m.complete || can_finish == Fin::No || says_close {
        if says_close && !must_close && (body_read || no_body) && !faulty {
            violate("close-needless", format!("response {i} says close although both sides allowed persistence"));
            return None;
        }
        Next::Closed
    } else if (body_read || no_body) && can_finish == Fin::Yes {
        Next::Must
    } else {
        Next::May
    };
    Some(RespCheck { next, pos: m.end, complete: m.complete })
}

pub fn tokens(v: &[Vec<u8>]) -> Vec<String> {
    v.iter()
        .flat_map(|x| String::from_utf8_lossy(x).split(',').map(|s| s.trim().to_ascii_lowercase()).collect::<Vec<_>>())
        .filter(|s| !s.is_empty())
        .collect()
}

// ---- the scenario ---------------------------------------------------------

pub fn run_family(focus: &'static str) {
    draw_knobs();
    let mut cfg = draw_cfg();
    let n = match ww(&[2, 3, 2, 1]) {
        0 => 1,
        1 => 2,
        2 => 3,
        _ => wr(4, 8) as usize,
    };
    let n = if focus == "C16" { n.min(2) } else { n };
    // a long train of small requests, answered at once
    let train = focus != "C16" && wc(1, 50);
    let bodies = train && wc(1, 2);
    let n = if train { wr(15, 45) as usize } else { n };
    if focus == "C16" && wc(3, 4) {
        cfg.max_buf = pick(&[Some(8192), Some(10_000), Some(16_384)]);
    }
    let mut reqs: Vec<Req> = Vec::new();
    let bad_chance = match focus {
        "C01" | "C17" | "C18" => (1, 3),
        "C03" => (1, 4),
        _ => (1, 10),
    };
    let bad_at = if wc(bad_chance.0, bad_chance.1) { Some(wd(n as u32) as usize) } else { None };
    for i in 0..n {
        let mut r = if bad_at == Some(i) && !cfg.lenient.any() {
            gen_bad(i as u32)
        } else if train {
            gen_small(i as u32, bodies)
        } else {
            gen_req(i as u32, focus)
        };
        if cfg.lenient.any() {
            encode_req(&mut r, cfg.lenient);
        }
        reqs.push(r);
    }
    let mut plans: Vec<Plan> = (0..n).map(|i| gen_plan(i as u32, &reqs[i], focus)).collect();
    if train {
        count("trains");
        for p in &mut plans {
            (p.pre, p.post, p.fail) = (0, 0, false);
            p.read = ReadPlan::All;
            if !wc(1, 40) && !p.resp.echo {
                let k = wd(20) as usize;
                let steps = if k == 0 { vec![] } else { vec![Step::Data(content(wd(1000), k).into(), 1)] };
                p.resp = Resp {
                    status: 200,
                    reason: None,
                    hdrs: Vec::new(),
                    body: BodySpec { steps, hint: pick(&[Hint::Exact, Hint::Exact, Hint::Unknown]), eos: wc(1, 2) },
                    conn: "",
                    echo: false,
                    own_date: false,
                    trailer_names: Vec::new(),
                    explicit_len: false,
                };
            }
        }
    }
    let (mut k0, mut k1) = (draw_io(), draw_io());
    if focus == "C16" {
        for k in [&mut k0, &mut k1] {
            k.cap = pick(&[200, 1024, 5000, 16384]);
            k.latency = k.latency.min(50_000);
        }
    }
    let faults = matches!(focus, "C05" | "C18" | "C22" | "C06") && wc(2, 3);
    let graceful = focus == "C10" || wc(1, 12);
    let dropped = focus == "C05" && wc(1, 4);
    // --- wiring
    let (ssock, csock) = connect("h1s", k0, k1);
    let conn = ssock.conn;
    with(|w| w.net.conns[conn].watch[1] = false);
    let sh: Rc<RefCell<Shared>> = Rc::default();
    let svc = make_service(Rc::new(plans.clone()), sh.clone());
    let cmd: Rc<RefCell<Cmd>> = Rc::default();
    let c = server_builder(&cfg).serve_connection(ssock, hyper::service::service_fn(svc));
    let drv = Driver { conn: Box::pin(c), cmd: cmd.clone(), shut: |c| c.graceful_shutdown() };
    let sh2 = sh.clone();
    let conn_task = spawn_in(1, "conn", async move {
        let r = drv.await;
        let mut s = sh2.borrow_mut();
        s.conn_done_at = now();
        tr(|| format!("  connection result {r:?}"));
        if let Err(e) = &r {
            s.conn_err_flags = flags(e);
        }
        s.conn_result = Some(r.map_err(|e| format!("{e:?}")));
    });
    // --- client script
    let total: usize = reqs.iter().map(|r| r.wire.len()).sum();
    let mut ops: Vec<Op> = Vec::new();
    let style = ww(&[3, 3, 3]);
    match style {
        0 => {
            let mut all = Vec::new();
            for r in &reqs {
                all.extend_from_slice(&r.wire);
            }
            ops.push(Op::Send(all));
        }
        1 => {
            for (i, r) in reqs.iter().enumerate() {
                if r.expect && wc(3, 4) {
                    ops.push(Op::Send(r.wire[..r.head_len].to_vec()));
                    ops.push(Op::Wait100(i));
                    if wc(1, 2) {
                        ops.push(Op::IfContinue(i));
                    }
                    ops.push(Op::Send(r.wire[r.head_len..].to_vec()));
                } else {
                    ops.push(Op::Send(r.wire.clone()));
                }
                ops.push(Op::Wait(i + 1));
            }
        }
        _ => {
            let mut all = Vec::new();
            for r in &reqs {
                all.extend_from_slice(&r.wire);
            }
            let mut i = 0;
            let mut pieces = 0;
            while i < all.len() {
                pieces += 1;
                let k = if pieces > 30 { all.len() - i } else { (pick(&[1u32, 3, 20, 200, 5000]) as usize).min(all.len() - i) };
                ops.push(Op::Send(all[i..i + k].to_vec()));
                i += k;
                if wc(1, 2) {
                    ops.push(Op::Sleep(wr(1, 3000) as u64 * 1000));
                }
            }
        }
    }
    let half = wc(1, 6);
    if half {
        ops.push(Op::HalfClose);
    }
    if faults {
        let d = wd(3); // 0,1: towards the server; 2: from the server
        let kind = if d < 2 { pick(&[Fault::Eof, Fault::Reset, Fault::Reset, Fault::ReadErr]) } else { pick(&[Fault::WriteErr, Fault::Reset]) };
        let at = if d < 2 {
            // biased to message boundaries
            let mut b = vec![0usize];
            let mut x = 0;
            for r in &reqs {
                b.push(x + r.head_len);
                b.push(x + r.wire.len());
                x += r.wire.len();
            }
            let base = pick(&b);
            match wd(3) {
                0 => wd(total as u32 + 1) as usize,
                1 => base,
                _ => (base + wd(9) as usize).saturating_sub(4),
            }
        } else {
            wd(1500) as usize
        };
        let dir = if d < 2 { 1 } else { 0 };
        plan_fault(conn, dir, at as u64, kind);
        tr(|| format!("planned {kind:?} at byte {at} of dir {dir}"));
    }
    let methods: Vec<String> = reqs.iter().map(|r| r.method.clone()).collect();
    let mut pauses = Vec::new();
    let c16 = focus == "C16";
    if if c16 { wc(2, 3) } else { wc(1, 4) } {
        for _ in 0..wr(1, 3) {
            pauses.push((wd(if c16 { 60_000 } else { 4000 }) as usize, wr(1, 20_000) as u64 * 1000));
        }
        pauses.sort();
    }
    let st: Rc<RefCell<ClientState>> = Rc::default();
    let csock = Rc::new(csock);
    let rt = spawn_in(2, "client-read", client_reader(csock.clone(), st.clone(), methods, pauses));
    let wt = spawn_in(2, "client-write", client_writer(csock.clone(), st.clone(), ops));
    drop(csock);
    net::arm(conn);
    let buf = cfg.max_buf.unwrap_or(DEFAULT_BUF);
    with(|w| {
        w.pull_bound = Some((conn, 0, buf));
        w.read_bound = Some((conn, 0, 2 * buf + 16_384));
    });
    // --- graceful shutdown at an arbitrary moment
    let gstate: Rc<RefCell<Option<GState>>> = Rc::default();
    let cut = if graceful { Some(sd(if sc(1, 3) { 12 } else { 400 })) } else { None };
    let kill_at = if dropped { Some(sd(300)) } else { None };
    let sh3 = sh.clone();
    let (cmd2, gs2) = (cmd.clone(), gstate.clone());
    let start = with(|w| w.steps);
    let stop = move || {
        let s = with(|w| w.steps) - start;
        if let Some(c) = cut {
            if s >= c as u64 && gs2.borrow().is_none() {
                let sh = sh3.borrow();
                *gs2.borrow_mut() = Some(GState {
                    calls: sh.calls.len(),
                    in_service: sh.in_service,
                    answered: sh.calls.iter().filter(|c| c.answered).count(),
                    written: dir(conn, 0, |d| d.written.len()),
                    conn_done: cmd2.borrow().done,
                    read: dir(conn, 1, |d| d.read_total),
                });
                let mut c = cmd2.borrow_mut();
                c.graceful = true;
                if let Some(w) = c.waker.take() {
                    w.wake();
                }
            }
        }
        if let Some(k) = kill_at {
            if s >= k as u64 && !task_done(conn_task) {
                count("conn_dropped");
                kill(conn_task);
            }
        }
        false
    };
    let end = run(Limits { max_steps: 60_000, horizon: 3600 * SEC }, stop);
    if violated() {
        return;
    }
    let killed = kill_at.is_some() && sh.borrow().conn_result.is_none() && task_done(conn_task);
    if end != End::Quiescent {
        violate("no-progress", format!("phase 1 ended with {end:?} after {} steps", with(|w| w.steps)));
        return;
    }
    judge(&cfg, &reqs, &plans, &sh, &st, conn, half, faults, killed, &gstate, 1);
    if violated() {
        return;
    }
    // --- the client goes away
    kill(wt);
    kill(rt);
    let end = run(Limits { max_steps: 60_000, horizon: 3600 * SEC }, || false);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 2 ended with {end:?}"));
        return;
    }
    judge(&cfg, &reqs, &plans, &sh, &st, conn, half, faults, killed, &gstate, 2);
    if violated() {
        return;
    }
    released(conn_task, conn, 0, &[1, 7]);
}

/// After the end: transport, service calls, bodies and tasks are gone (C22).
pub fn released(conn_task: usize, conn: usize, side: usize, groups: &[u32]) {
    if !task_done(conn_task) {
        violate("conn-never-ends", "the transport has ended but the connection future has not".into());
        return;
    }
    if !with(|w| w.net.conns[conn].dropped[side]) {
        violate("transport-leak", "connection ended but its transport was not released".into());
        return;
    }
    for g in groups {
        let l = live_tasks(*g);
        if !l.is_empty() {
            violate("task-leak", format!("still alive after the connection ended: {l:?}"));
            return;
        }
    }
    let leak = with(|w| w.bodies.iter().find(|b| !b.dropped).map(|b| b.name.clone()));
    if let Some(n) = leak {
        violate("body-leak", format!("body {n} still alive after the connection ended"));
    }
}

#[derive(Clone, Debug)]
pub struct GState {
    pub calls: usize,
    pub in_service: u32,
    pub answered: usize,
    pub written: usize,
    pub conn_done: bool,
    pub read: u64,
}

#[allow(clippy::too_many_arguments)]
fn judge(
    cfg: &Cfg,
    reqs: &[Req],
    plans: &[Plan],
    sh: &Rc<RefCell<Shared>>,
    st: &Rc<RefCell<ClientState>>,
    conn: usize,
    half: bool,
    faults: bool,
    killed: bool,
    g: &Rc<RefCell<Option<GState>>>,
    phase: u32,
) {
    let s = sh.borrow();
    let g = g.borrow().clone();
    let out = dir(conn, 0, |d| d.written.clone());
    let delivered = dir(conn, 1, |d| d.read_total) as usize;
    let shut = dir(conn, 0, |d| d.shutdown_called);
    let fired = faults && net::any_fault_fired(conn);
    // Ways in which the run may legitimately be cut short.
    let eof_early = half && !cfg.half_close;
    let faulty = fired || killed || eof_early || phase == 2;
    if s.calls.len() > reqs.len() {
        violate("extra-call", format!("{} service calls for {} requests: last {} {}", s.calls.len(), reqs.len(), s.calls.last().unwrap().method, s.calls.last().unwrap().target));
        return;
    }
    // which requests were completely taken by the server
    let mut off = 0;
    for (i, c) in s.calls.iter().enumerate() {
        let r = &reqs[i];
        if delivered < off + r.head_len - 2.min(r.head_len) {
            violate("call-before-head", format!("request {i} reached the service before its head was received"));
            return;
        }
        let end = off + r.wire.len();
        let full = delivered >= end && !killed && !fired && g.is_none() && !matches!(s.conn_result, Some(Err(_)));
        if !check_request(i, r, c, full) {
            return;
        }
        if let Some(l) = &c.log {
            if l.borrow().clean() && delivered < end && r.bad == Bad::No {
                violate("truncated-clean", format!("request {i}: body ended cleanly though {} bytes of the message had not arrived", end - delivered));
                return;
            }
        }
        off = end;
    }
    let sent = dir(conn, 1, |d| d.written.len());
    let ends: Vec<usize> = reqs
        .iter()
        .scan(0, |a, r| {
            *a += r.wire.len();
            Some(*a)
        })
        .collect();
    // responses, in order
    let mut pos = 0;
    let mut i = 0;
    let mut next = Next::Must;
    let done = s.conn_result.is_some() || killed;
    let eof = shut || done;
    while i < s.calls.len() {
        let c = &s.calls[i];
        if next == Next::Closed {
            violate("call-after-close", format!("request {i} reached the service after the connection had to close"));
            return;
        }
        let ka_off = g.as_ref().map_or(false, |g| !g.conn_done && g.answered <= i && g.calls >= i + 1 || i > 0 && g.calls <= i && g.answered <= i && false);
        let errored = matches!(s.conn_result, Some(Err(_)));
        let Some(rc) = check_response(i, cfg, &reqs[i], c, &plans[i], &out, pos, eof, faulty || errored || g.is_some(), ka_off && !faulty) else {
            return;
        };
        // the service wants the body, the peer waits for the go-ahead
        let head_end = ends[i] - reqs[i].wire.len() + reqs[i].head_len;
        if phase == 1 && !faulty && !done && !killed && reqs[i].expect && c.polled && !c.answered && !c.finished && delivered >= head_end && out.len() == pos {
            violate("continue-missing", format!("the service waits for the body of request {i}, which expects a 100, but none was written"));
            return;
        }
        pos = rc.pos;
        next = rc.next;
        if !rc.complete {
            // nothing may follow an incomplete message
            if pos < out.len() {
                violate("bytes-after-incomplete", format!("{} bytes follow incomplete response {i}: {}", out.len() - pos, shorten(&out[pos..])));
                return;
            }
            let (_, can_finish) = if c.answered { expected_body(&reqs[i], c, &plans[i]) } else { (vec![], Fin::No) };
            // an error elsewhere may cut off what was still buffered
            let cut = killed || fired || errored;
            if !faulty && !cut && c.answered && can_finish == Fin::Yes {
                violate("response-stuck", format!("response {i} was answered but is not complete on the wire at quiescence ({} bytes written, connection {:?})", out.len(), s.conn_result));
                return;
            }
            if !faulty && !c.answered && !c.finished && phase == 1 {
                // the service itself is waiting: only for a body that cannot arrive
                let starved = request_starved(st, &reqs[i], delivered, &reqs[..i]);
                if !starved {
                    violate("service-stuck", format!("service call {i} waits at quiescence though its request was sent"));
                    return;
                }
            }
            if !faulty && sent < ends[i] && !done {
                // the client withholds the rest of the request
                return;
            }
            next = Next::Closed;
            if i + 1 < s.calls.len() && !cut {
                violate("call-after-incomplete", format!("request {} served though response {i} is incomplete", i + 1));
                return;
            }
            // a failed service or body is reported to the driver
            if !faulty && (plans[i].fail || (c.answered && can_finish == Fin::No)) && done {
                if let Some(Ok(())) = s.conn_result {
                    violate("failure-swallowed", format!("call {i} failed (service failed: {}, body cannot complete: {}) but the connection future returned Ok", plans[i].fail, c.answered));
                    return;
                }
            }
            i += 1;
            break;
        }
        i += 1;
    }
    let bad_next = reqs.get(i).map_or(false, |r| matches!(r.bad, Bad::Head(..)));
    if pos < out.len() {
        // an error response may follow, for a bad head only
        let m = match parse_response(&out, pos, "GET", eof) {
            Ok(m) => m,
            Err(e) => {
                violate("trailing-bytes", format!("{} unexplained bytes after response {i}: {e}: {}", out.len() - pos, shorten(&out[pos..])));
                return;
            }
        };
        let ok = match reqs.get(i).map(|r| &r.bad) {
            Some(Bad::Head(name, st)) => {
                if m.head_done && !st.contains(&m.status()) {
                    violate("error-status", format!("bad head {name} answered with {}", m.status()));
                    return;
                }
                next != Next::Closed
            }
            // a valid request cut off by the end of the transport
            Some(_) if faulty => false,
            _ => false,
        };
        if !ok {
            violate("unexpected-response", format!("unexpected response {} after {i} requests: {}", m.start[1], shorten(&out[pos..])));
            return;
        }
        if m.end < out.len() {
            violate("trailing-bytes", format!("bytes after the error response: {}", shorten(&out[m.end..])));
            return;
        }
        if m.complete && m.has_token("connection", "keep-alive") {
            violate("error-keepalive", "error response promises keep-alive".into());
            return;
        }
        pos = m.end;
        next = Next::Closed;
        if done && matches!(s.conn_result, Some(Ok(()))) {
            violate("parse-error-swallowed", "a malformed request head was answered but the connection future returned Ok".into());
            return;
        }
        i += 1;
    } else if bad_next && next == Next::Must && !faulty && g.is_none() && phase == 1 && sent >= ends[i] {
        if let Bad::Head(n, _) = &reqs[i].bad {
            violate("bad-head-unanswered", format!("bad head {n}: nothing was written, connection {:?}", s.conn_result));
            return;
        }
    }
    let _ = pos;
    if phase == 1 && !faulty {
        if i > 0 && i <= ends.len() && sent < ends[i - 1] && !done {
            // the client withholds the rest of the request
            return;
        }
        let half = dir(conn, 1, |d| d.shutdown_called);
        if next == Next::Closed && !done {
            violate("close-missing", format!("the connection had to close after exchange {} but is still open (shutdown called: {shut})", i));
            return;
        }
        if let Some(gs) = &g {
            graceful_checks(gs, &s, reqs, delivered, done, st);
            return;
        }
        if next == Next::Must && i < reqs.len() && !bad_next {
            // a further valid request was sent and must be served
            if sent >= ends[i] {
                violate("request-unserved", format!("request {i} was sent on a usable connection but not served; connection {:?}", s.conn_result));
                return;
            }
        }
        if next == Next::May && i < reqs.len() && !done && sent >= ends[i] && !bad_next {
            violate("request-unserved", format!("request {i} neither served nor the connection closed"));
            return;
        }
        if next == Next::Must && i == reqs.len() && done && !half {
            violate("closed-needlessly", format!("connection ended ({:?}) though it was to be kept", s.conn_result));
            return;
        }
        if half && cfg.half_close && !done && i == reqs.len() {
            violate("half-close-ignored", "peer finished sending, all answered, but the connection stays open".into());
            return;
        }
    }
    if phase == 2 && !done {
        violate("conn-never-ends", format!("peer gone but the connection future is pending after {i} exchanges"));
        return;
    }
    if let Some(Ok(())) = s.conn_result {
        // an interrupted exchange may not be reported as success
        let started = s.calls.iter().map(|c| c.called_at_step).len();
        let mut end = 0;
        for r in reqs.iter().take(started) {
            end += r.wire.len();
        }
        let eof_seen = dir(conn, 1, |d| d.eof_seen);
        if eof_seen && !killed && g.is_none() {
            let got = dir(conn, 1, |d| d.read_total) as usize;
            if next == Next::Must && got > end + 2 && started < reqs.len() && got < end + reqs[started].wire.len() && got < end + reqs[started].head_len {
                violate("truncated-head-ok", format!("transport ended {} bytes into request {started}'s head but the connection returned Ok", got - end));
                return;
            }
        }
        if dir(conn, 1, |d| d.err_seen) && !killed {
            // fine between messages; in a body its reader is told
            let got = dir(conn, 1, |d| d.read_total) as usize;
            let at = ends.iter().take_while(|&&e| e <= got).count();
            let from = if at > 0 { ends[at - 1] } else { 0 };
            if at < reqs.len() && got > from + 2 && got < from + reqs[at].head_len && next == Next::Must {
                violate("read-error-swallowed", format!("a read failed {} bytes into request {at} but the connection returned Ok", got - from));
                return;
            }
        }
        if dir(conn, 0, |d| d.werr_seen) && !killed {
            if let Some(c) = s.calls.last() {
                let i = s.calls.len() - 1;
                if c.answered && next == Next::Closed {
                    let m = parse_response(&out, resp_start(&out, reqs, i), &reqs[i].method, false);
                    if let Ok(m) = m {
                        if !m.complete && m.framing != Framing::Eof && expected_body(&reqs[i], c, &plans[i]).1 == Fin::Yes {
                            violate("write-error-swallowed", format!("response {i} could not be written but the connection returned Ok"));
                        }
                    }
                }
            }
        }
        if dir(conn, 0, |d| d.werr.is_none()) && !shut && !killed {
            violate("no-shutdown", "connection ended Ok without shutting the transport down".into());
        }
    }
}

fn resp_start(out: &[u8], reqs: &[Req], n: usize) -> usize {
    let mut pos = 0;
    let mut i = 0;
    while i < n {
        match parse_response(out, pos, &reqs[i].method, false) {
            Ok(m) if m.complete => {
                pos = m.end;
                if m.status() != 100 {
                    i += 1;
                }
            }
            _ => break,
        }
    }
    while let Ok(m) = parse_response(out, pos, "GET", false) {
        if m.complete && m.status() == 100 {
            pos = m.end;
        } else {
            break;
        }
    }
    pos
}

/// The client legitimately never sent (all of) this request.
fn request_starved(st: &Rc<RefCell<ClientState>>, r: &Req, delivered: usize, before: &[Req]) -> bool {
    let end: usize = before.iter().map(|r| r.wire.len()).sum::<usize>() + r.wire.len();
    let s = st.borrow();
    delivered < end && (s.eof || s.err || s.script_done)
}

fn graceful_checks(g: &GState, s: &Shared, reqs: &[Req], delivered: usize, done: bool, st: &Rc<RefCell<ClientState>>) {
    if g.conn_done {
        return;
    }
    // at most the request that was being received or served
    let extra = s.calls.len() - g.calls;
    if extra > 1 || (extra == 1 && g.in_service > 0) {
        violate("graceful-extra-call", format!("{extra} further requests were handed to the service after graceful shutdown ({} calls and {} in progress before)", g.calls, g.in_service));
        return;
    }
    if !done {
        // only a partially received request may keep it open
        let end: usize = reqs.iter().take(s.calls.len()).map(|r| r.wire.len()).sum();
        let mid_head = s.calls.is_empty() && delivered > end;
        let waiting_body = s.calls.last().map_or(false, |c| c.log.as_ref().map_or(false, |l| l.borrow().end == BodyEnd::Open));
        if !mid_head && !waiting_body && st.borrow().script_done {
            violate("graceful-hangs", format!("graceful shutdown requested, {} calls finished, but the connection stays open", s.calls.len()));
        }
        return;
    }
    if let Some(Err(e)) = &s.conn_result {
        let i = s.calls.len();
        let failing = s.calls.iter().any(|c| !c.answered) || reqs.iter().any(|r| r.bad != Bad::No);
        let _ = i;
        if !failing && !e.contains("User") {
            violate("graceful-error", format!("graceful shutdown ended with {e}"));
        }
    }
}
