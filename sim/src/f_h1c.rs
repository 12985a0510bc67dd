//! Family h1c: a real hyper HTTP/1 client connection, its handle and callers,
//! against a scripted raw server on the simulated transport.
use crate::body::*;
use crate::core::*;
use crate::f_h1s::{flags, out_body, released, tokens, ErrFlags, Fin, ReadPlan};
use crate::gen::*;
use crate::h1ref::*;
use crate::net::{self, *};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Poll, Waker};

#[derive(Clone, Debug)]
pub struct CReq {
    pub method: String,
    pub target: String,
    pub v11: bool,
    pub hdrs: Hdrs,
    pub body: BodySpec,
    pub wants_close: bool,
    pub informational: bool,
    pub try_send: bool,
    pub ready_first: bool,
    pub cancel: Option<u64>,
    pub read: ReadPlan,
    pub gap: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Good,
    BadHead(&'static str),
    /// malformed body after this many good bytes
    BadBody(&'static str, usize),
}
#[derive(Clone, Debug)]
pub struct SMsg {
    pub interims: Vec<(u16, Hdrs)>,
    pub status: u16,
    pub reason: String,
    pub v11: bool,
    pub hdrs: Hdrs,
    pub framing: Framing,
    pub body: Vec<u8>,
    pub trailers: Hdrs,
    pub bytes: Vec<u8>,
    pub interim_len: usize,
    pub head_end: usize,
    pub kind: Kind,
    pub persist: bool,
    /// wait for the whole request before answering
    pub wait_all: bool,
    pub delay: u64,
    pub pieces: u32,
    /// unsolicited bytes after it
    pub extra: Vec<u8>,
    pub extra_delay: u64,
    pub close: bool,
}

#[derive(Clone, Debug)]
pub enum Res {
    Ok { status: u16, v11: bool, hdrs: HMap, reason: Option<Vec<u8>> },
    Err { flags: ErrFlags, text: String, returned: bool },
}
#[derive(Clone, Debug, Default)]
pub struct Out {
    pub submitted: bool,
    pub read_at_submit: usize,
    pub ready_ok: bool,
    pub ready_err: bool,
    pub result: Option<Res>,
    pub cancelled: bool,
    pub informs: Vec<(u16, HMap)>,
    pub log: Option<LogRef>,
    pub body_id: Option<usize>,
    pub done: bool,
}
#[derive(Default)]
struct Shared {
    outs: Vec<Out>,
    conn_result: Option<Result<(), String>>,
    handle_dropped: bool,
    script_done: bool,
}

#[derive(Default)]
struct Server {
    buf: Vec<u8>,
    /// parsed requests on the wire: (offset, index, head done, complete)
    wire: Vec<(usize, usize, bool, bool)>,
    cur: usize,
    eof: bool,
    wakers: Vec<Waker>,
    /// (start, end, what): index of the answered request, or usize::MAX for extra bytes
    stream: Vec<(usize, usize, usize)>,
    parse_err: Option<String>,
    script_idle: bool,
    shut: bool,
}
impl Server {
    fn wake(&mut self) {
        for w in self.wakers.drain(..) {
            w.wake();
        }
    }
    fn absorb(&mut self) {
        if self.parse_err.is_some() {
            return;
        }
        loop {
            match parse_request(&self.buf, self.cur) {
                Ok(m) => {
                    if !m.head_done {
                        return;
                    }
                    let i = req_index(&m.start[1]);
                    match self.wire.last_mut() {
                        Some(l) if l.0 == m.begin => {
                            l.3 = m.complete;
                        }
                        _ => self.wire.push((m.begin, i, true, m.complete)),
                    }
                    if !m.complete {
                        return;
                    }
                    self.cur = m.end;
                    if self.cur >= self.buf.len() {
                        return;
                    }
                }
                Err(e) => {
                    self.parse_err = Some(e);
                    return;
                }
            }
        }
    }
}
fn req_index(target: &str) -> usize {
    let p = target.rsplit("/r").next().unwrap_or("");
    let d: String = p.chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().unwrap_or(usize::MAX)
}

async fn server_reader(sock: Rc<Sock>, sv: Rc<RefCell<Server>>, pauses: Vec<(usize, u64)>) {
    let mut pauses: std::collections::VecDeque<(usize, u64)> = pauses.into();
    loop {
        if let Some((at, d)) = pauses.front().copied() {
            if sv.borrow().buf.len() >= at {
                pauses.pop_front();
                count("reader_pauses");
                sleep(d).await;
            }
        }
        match sock.read(16384).await {
            Ok(v) if !v.is_empty() => {
                let mut s = sv.borrow_mut();
                s.buf.extend_from_slice(&v);
                s.absorb();
                s.wake();
            }
            _ => {
                let mut s = sv.borrow_mut();
                s.eof = true;
                s.wake();
                return;
            }
        }
    }
}
async fn put(sock: &Sock, sv: &Rc<RefCell<Server>>, b: &[u8], pieces: u32, what: usize) -> bool {
    let start = dir(sock.conn, 1, |d| d.written.len());
    sv.borrow_mut().stream.push((start, start + b.len(), what));
    let n = (pieces as usize).clamp(1, b.len().max(1));
    let step = b.len().div_ceil(n).max(1);
    let mut first = true;
    for c in b.chunks(step) {
        if !first {
            sleep(wd_sched(2_000_000)).await;
        }
        first = false;
        if sock.write_all(c).await.is_err() {
            return false;
        }
    }
    true
}
fn wd_sched(n: u32) -> u64 {
    sd(n) as u64
}
async fn server_writer(sock: Rc<Sock>, sv: Rc<RefCell<Server>>, msgs: Rc<Vec<SMsg>>, early: Vec<u8>) {
    if !early.is_empty() && !put(&sock, &sv, &early, 1, usize::MAX).await {
        return;
    }
    let mut k = 0;
    loop {
        // wait for the k-th request on the wire
        let got = std::future::poll_fn(|cx| {
            let mut s = sv.borrow_mut();
            if let Some(&(_, i, _, complete)) = s.wire.get(k) {
                if i >= msgs.len() {
                    return Poll::Ready(None);
                }
                if !msgs[i].wait_all || complete {
                    return Poll::Ready(Some(i));
                }
            }
            if s.eof {
                return Poll::Ready(None);
            }
            s.wakers.push(cx.waker().clone());
            Poll::Pending
        })
        .await;
        let Some(i) = got else {
            break;
        };
        let m = &msgs[i];
        if m.delay > 0 {
            sleep(m.delay).await;
        }
        if !put(&sock, &sv, &m.bytes, m.pieces, i).await {
            break;
        }
        if !m.extra.is_empty() {
            if m.extra_delay > 0 {
                sleep(m.extra_delay).await;
            }
            count("unsolicited_bytes");
            if !put(&sock, &sv, &m.extra, 1, usize::MAX).await {
                break;
            }
        }
        if m.close {
            break;
        }
        k += 1;
    }
    sv.borrow_mut().shut = true;
    let _ = sock.shutdown().await;
}

// ---- generation -----------------------------------------------------------

fn gen_creq(i: usize, focus: &str) -> CReq {
    let v11 = !wc(1, 12);
    let method = pick(&["GET", "GET", "POST", "POST", "PUT", "HEAD", "OPTIONS", "DELETE", "X-M!"]).to_string();
    let target = match ww(&[6, 2, 1]) {
        0 => format!("/r{i}"),
        1 => format!("/r{i}?q=%20a&b"),
        _ => format!("http://example.com:8080/r{i}"),
    };
    let mut hdrs = plain_headers(4);
    hdrs.insert(0, ("host".into(), b"example.com".to_vec()));
    let n = if focus == "C16" { wr(20_000, 300_000) as usize } else { body_len() };
    let data = content(i as u32 + 100, n);
    let has_body = match method.as_str() {
        "GET" | "HEAD" => wc(1, 8),
        _ => wc(3, 4),
    };
    let mut body = BodySpec::empty();
    if has_body {
        let mut steps = if focus == "C16" { big_steps(&data) } else { body_steps(&data, wc(1, 3)) };
        let hint = match ww(&[5, 4, 1, 1]) {
            0 => Hint::Exact,
            1 => Hint::Unknown,
            2 => Hint::Lower,
            _ => Hint::Upper,
        };
        if hint != Hint::Exact && wc(1, 3) {
            let k = wr(1, 3);
            let mut t: Hdrs = (0..k).map(|j| (format!("x-req-trailer-{j}"), header_value())).collect();
            if wc(1, 4) {
                t.push(("x-req-trailer-0".into(), b"again".to_vec()));
            }
            if wc(3, 4) {
                let mut names: Vec<String> = t.iter().map(|x| x.0.clone()).collect();
                names.dedup();
                if wc(1, 4) {
                    names.truncate(1);
                }
                hdrs.push(("trailer".into(), names.join(", ").into_bytes()));
            }
            if wc(1, 3) {
                steps.push(Step::Yield);
            }
            steps.push(Step::Trailers(to_http(&t)));
        }
        body = BodySpec { steps, hint, eos: !wc(1, 3) };
        let fw: &[u32] = if focus == "C06" { &[2, 3, 3, 2] } else { &[24, 1, 1, 1] };
        match ww(fw) {
            1 => {
                let k = wd(body.steps.len() as u32 + 1) as usize;
                if body.hint == Hint::Exact {
                    let l = body.len();
                    body.hint = Hint::Lie(l);
                }
                body.steps.truncate(k);
                body.steps.retain(|s| !matches!(s, Step::Trailers(_)));
                body.steps.push(Step::Err);
            }
            2 if body.hint == Hint::Exact && body.len() > 0 => body.hint = Hint::Lie(body.len() + wr(1, 20) as u64),
            3 if body.hint == Hint::Exact && body.len() > 1 => {
                body.hint = Hint::Lie(body.len().saturating_sub(wr(1, 20) as u64).max(1))
            }
            _ => {}
        }
        let says = if focus == "C06" { (1, 5) } else { (1, 40) };
        if !body.fails() && body.trailers().is_none() && body.hint == Hint::Unknown && wc(says.0, says.1) {
            // a length field that the body does not keep
            let l = body.len();
            let n = if wc(2, 3) || l < 2 { l + wr(1, 20) as u64 } else { l - wd(20).min(l as u32 - 2) as u64 - 1 };
            body.hint = Hint::Says(n);
            if wc(1, 4) {
                body.steps.clear();
            }
            hdrs.push(("content-length".into(), n.to_string().into_bytes()));
        } else if wc(1, 6) && !body.fails() && !(body.eos && body.steps.is_empty()) {
            match body.hint {
                Hint::Exact if body.len() > 0 => hdrs.push(("content-length".into(), body.len().to_string().into_bytes())),
                Hint::Unknown if body.trailers().is_none() && wc(1, 2) => {
                    hdrs.push(("content-length".into(), body.len().to_string().into_bytes()))
                }
                Hint::Unknown if v11 => {
                    hdrs.push(("transfer-encoding".into(), pick(&[&b"chunked"[..], b"gzip, chunked", b"gzip"]).to_vec()))
                }
                _ => {}
            }
        }
    }
    let mut wants_close = false;
    let cw: &[u32] = if focus == "C08" { &[4, 2, 1, 1] } else { &[16, 1, 1, 1] };
    match ww(cw) {
        1 => {
            wants_close = true;
            hdrs.push(("connection".into(), pick(&[&b"close"[..], b"Close", b"x-a, close"]).to_vec()));
        }
        2 => hdrs.push(("connection".into(), b"keep-alive".to_vec())),
        3 => {
            wants_close = true;
            hdrs.push(("connection".into(), pick(&[&b"x-a"[..], b"keep-alive"]).to_vec()));
            hdrs.push(("connection".into(), b"close".to_vec()));
        }
        _ => {}
    }
    let cancel_w = if focus == "C07" { (1, 4) } else { (1, 20) };
    CReq {
        method,
        target,
        v11,
        hdrs,
        body,
        wants_close,
        informational: wc(1, 2),
        try_send: wc(1, 2),
        ready_first: !wc(1, if focus == "C07" { 3 } else { 8 }),
        cancel: if wc(cancel_w.0, cancel_w.1) { Some(wd(6000) as u64 * 1000) } else { None },
        read: match ww(if focus == "C16" { &[3, 1, 1, 3, 2] } else { &[8, 1, 1, 1, 1] }) {
            0 => ReadPlan::All,
            1 => ReadPlan::Drop,
            2 => ReadPlan::Frames(wr(1, 3)),
            3 => ReadPlan::Side(wr(0, 3000) as u64 * 1000),
            _ => ReadPlan::Hold(wr(0, 3000) as u64 * 1000),
        },
        gap: if wc(1, 3) { wr(1, 4000) as u64 * 1000 } else { 0 },
    }
}

fn gen_smsg(i: usize, req: &CReq, focus: &str, len: Lenient, h09: bool) -> SMsg {
    let mut interims = Vec::new();
    if wc(1, if focus == "C14" { 1 } else { 5 }) {
        for _ in 0..wr(1, 4) {
            let st = pick(&[100u16, 103, 102, 150, 199]);
            interims.push((st, plain_headers(2)));
        }
    }
    let status = pick(&[200u16, 200, 200, 201, 206, 404, 500, 299, 204, 304, 302]);
    let v11 = !wc(1, 7);
    let mut hdrs = plain_headers(4);
    let bodiless = req.method == "HEAD" || status == 204 || status == 304;
    let n = if focus == "C16" { wr(20_000, 300_000) as usize } else { body_len() };
    let mut body = content(i as u32 + 5000, n);
    let mut trailers: Hdrs = Vec::new();
    let mut framing;
    match ww(&[4, 4, 2]) {
        1 if v11 => {
            framing = Framing::Chunked;
            hdrs.push(("transfer-encoding".into(), pick(&[&b"chunked"[..], b"Chunked", b"gzip, chunked"]).to_vec()));
            if wc(1, 3) {
                for j in 0..wr(1, 3) {
                    trailers.push((format!("x-st-{}", again(j)), header_value()));
                }
            }
        }
        2 if !bodiless => {
            framing = Framing::Eof;
            if v11 && wc(1, 4) {
                hdrs.push(("transfer-encoding".into(), b"gzip".to_vec()));
            }
        }
        _ => {
            framing = Framing::Len(n as u64);
            let v = if wc(1, 12) { format!("00{n}") } else { n.to_string() };
            hdrs.push(("content-length".into(), v.clone().into_bytes()));
            if wc(1, 16) {
                hdrs.push(("content-length".into(), v.into_bytes()));
            }
        }
    }
    if bodiless {
        body.clear();
        trailers.clear();
        framing = Framing::None;
    }
    let mut persist = v11;
    let cw: &[u32] = if focus == "C08" { &[3, 2, 2, 1, 1] } else { &[10, 1, 1, 1, 1] };
    match ww(cw) {
        1 => {
            persist = false;
            hdrs.push(("connection".into(), pick(&[&b"close"[..], b"Close", b"x-a, close"]).to_vec()));
        }
        2 => {
            persist = true;
            hdrs.push(("connection".into(), pick(&[&b"keep-alive"[..], b"Keep-Alive"]).to_vec()));
        }
        3 => {
            persist = false;
            hdrs.push(("connection".into(), b"close".to_vec()));
            hdrs.push(("connection".into(), pick(&[&b"x-a"[..], b"keep-alive"]).to_vec()));
        }
        4 => hdrs.push(("connection".into(), b"x-a".to_vec())),
        _ => {}
    }
    if framing == Framing::Eof {
        persist = false;
    }
    let reason = pick(&["OK", "", "Fine \u{e9}", "Not Found"]).to_string();
    let mut bytes = Vec::new();
    for (st, h) in &interims {
        bytes.extend_from_slice(format!("HTTP/1.1 {st} Interim\r\n").as_bytes());
        write_fields(&mut bytes, h, true);
        bytes.extend_from_slice(b"\r\n");
    }
    let interim_len = bytes.len();
    bytes.extend_from_slice(format!("HTTP/1.{} {status} {reason}\r\n", v11 as u8).as_bytes());
    write_lenient(&mut bytes, &hdrs, len);
    bytes.extend_from_slice(b"\r\n");
    let head_end = bytes.len();
    match framing {
        Framing::Chunked => write_chunked(&mut bytes, &body, &trailers),
        Framing::None => {}
        _ => bytes.extend_from_slice(&body),
    }
    let mut m = SMsg {
        interims,
        status,
        reason,
        v11,
        hdrs,
        framing,
        body,
        trailers,
        bytes,
        interim_len,
        head_end,
        kind: Kind::Good,
        persist,
        wait_all: !wc(1, 4),
        delay: if wc(1, 3) { wr(1, 5000) as u64 * 1000 } else { 0 },
        pieces: pick(&[1, 1, 2, 5]),
        extra: Vec::new(),
        extra_delay: 0,
        close: false,
    };
    if h09 && req.method != "HEAD" && wc(1, 2) {
        // an answer without any head
        count("http09_answers");
        m.body = content(i as u32 + 5000, n);
        let first = pick(&[&b"<html>"[..], b"HTTP", b"HTTP/2", b"http/1.1 200", b"\x00\r\n", b"HTTP/1x"]);
        m.body.splice(0..0, first.iter().copied());
        m.body.extend_from_slice(b"-----------");
        m.interims.clear();
        (m.status, m.reason, m.v11) = (200, "OK".into(), false);
        (m.hdrs, m.trailers, m.framing) = (Vec::new(), Vec::new(), Framing::Eof);
        (m.bytes, m.interim_len, m.head_end) = (m.body.clone(), 0, 0);
        (m.persist, m.close, m.pieces) = (false, true, m.pieces);
        return m;
    }
    m.close = m.framing == Framing::Eof || (!m.persist && !wc(1, 3)) || wc(1, 16);
    let bad_w = match focus {
        "C02" | "C18" => (1, 5),
        _ => (1, 20),
    };
    if wc(bad_w.0, bad_w.1) && !len.any() && !h09 && req.method != "HEAD" {
        make_bad(&mut m, i);
    } else if wc(1, if focus == "C02" || focus == "C08" { 6 } else { 25 }) && m.framing != Framing::Eof {
        m.extra = pick(&[
            &b"HTTP/1.1 299 smuggled\r\ncontent-length: 0\r\n\r\n"[..],
            b"HTTP/1.1 299 smuggled\r\ncontent-length: 5\r\n\r\nabcde",
            b"\r\n",
            b"x",
            b"HTTP/1.1 100 Continue\r\n\r\n",
        ])
        .to_vec();
        m.extra_delay = pick(&[0, 0, 1000, 2_000_000]);
    }
    m
}
/// A response (and what follows it) for family seg.
pub fn seg_message(method: &str) -> (Vec<u8>, bool) {
    let mut req = gen_creq(0, "C02");
    req.method = method.to_string();
    let m = gen_smsg(0, &req, "C02", Lenient::default(), false);
    let mut b = m.bytes;
    b.extend_from_slice(&m.extra);
    (b, m.close)
}

fn make_bad(m: &mut SMsg, i: usize) {
    let heads: &[(&'static str, &'static [u8])] = &[
        ("short-status", b"HTTP/1.1 20\r\ncontent-length: 0\r\n\r\n"),
        ("not-http", b"SSH-2.0-OpenSSH_9.6 xyz\r\n\r\n"),
        ("version", b"HTTP/4.2 200 OK\r\ncontent-length: 0\r\n\r\n"),
        ("status-text", b"HTTP/1.1 2xx OK\r\ncontent-length: 0\r\n\r\n"),
        ("status-zero", b"HTTP/1.1 099 Low\r\ncontent-length: 0\r\n\r\n"),
        ("no-colon", b"HTTP/1.1 200 OK\r\nfoo bar\r\n\r\n"),
        ("space-name", b"HTTP/1.1 200 OK\r\nfo o: bar\r\n\r\n"),
        ("space-colon", b"HTTP/1.1 200 OK\r\ncontent-length : 3\r\n\r\nabc"),
        ("fold", b"HTTP/1.1 200 OK\r\nfoo: a\r\n b\r\ncontent-length: 0\r\n\r\n"),
        ("nul", b"HTTP/1.1 200 OK\r\nfoo: a\0b\r\ncontent-length: 0\r\n\r\n"),
        ("cl-text", b"HTTP/1.1 200 OK\r\ncontent-length: abc\r\n\r\nabc"),
        ("cl-plus", b"HTTP/1.1 200 OK\r\ncontent-length: +3\r\n\r\nabc"),
        ("cl-differ", b"HTTP/1.1 200 OK\r\ncontent-length: 3\r\ncontent-length: 4\r\n\r\nabcd"),
        ("cl-overflow", b"HTTP/1.1 200 OK\r\ncontent-length: 99999999999999999999999\r\n\r\nabcd"),
        ("te-http10", b"HTTP/1.0 200 OK\r\ntransfer-encoding: chunked\r\n\r\n0\r\n\r\n"),
    ];
    let b = content(i as u32, 40);
    let chunk = |b: &[u8]| -> Vec<u8> {
        let mut v = format!("{:x}\r\n", b.len()).into_bytes();
        v.extend_from_slice(b);
        v.extend_from_slice(b"\r\n");
        v
    };
    m.trailers.clear();
    m.persist = false;
    m.close = wc(1, 2);
    m.bytes.truncate(m.interim_len);
    if wc(3, 5) {
        let (n, h) = heads[wd(heads.len() as u32) as usize];
        m.bytes.extend_from_slice(h);
        m.kind = Kind::BadHead(n);
        m.head_end = m.bytes.len();
        return;
    }
    m.status = 200;
    m.reason = "OK".into();
    m.v11 = true;
    m.hdrs = vec![("transfer-encoding".into(), b"chunked".to_vec())];
    m.bytes.extend_from_slice(b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n");
    m.head_end = m.bytes.len();
    m.framing = Framing::Chunked;
    let tails: &[(&'static str, &'static [u8])] = &[
        ("size-char", b"zz\r\n"),
        ("size-empty", b"\r\nabc"),
        ("size-overflow", b"fffffffffffffffff\r\nabc"),
        ("ext-lf", b"5;a\nb\r\nabcde\r\n0\r\n\r\n"),
        ("trailer", b"0\r\nbad trailer\r\n\r\n"),
        ("minus", b"-5\r\nabcde\r\n0\r\n\r\n"),
        ("space-digit", b"5 5\r\nabcde\r\n0\r\n\r\n"),
        ("size-0x", b"0x5\r\nabcde\r\n0\r\n\r\n"),
        ("bare-lf", b"5\nabcde\r\n0\r\n\r\n"),
        ("last-junk", b"0\r\nX\r\n\r\n"),
    ];
    let n = if wc(1, 3) {
        let (n, v) = spoiled_chunks(&b);
        m.bytes.extend_from_slice(&v);
        n
    } else {
        let (n, t) = tails[wd(tails.len() as u32) as usize];
        m.bytes.extend_from_slice(&chunk(&b));
        m.bytes.extend_from_slice(t);
        n
    };
    m.body = b.clone();
    m.kind = Kind::BadBody(n, b.len());
}

// ---- callers ----------------------------------------------------------------

fn build_req(r: &CReq, sh: &Rc<RefCell<Shared>>, i: usize) -> http::Request<SimBody> {
    let b = r.body.build(format!("req{i}"));
    sh.borrow_mut().outs[i].body_id = Some(b.id);
    let mut req = http::Request::new(b);
    *req.method_mut() = http::Method::from_bytes(r.method.as_bytes()).unwrap();
    *req.uri_mut() = r.target.parse().unwrap();
    *req.version_mut() = if r.v11 { http::Version::HTTP_11 } else { http::Version::HTTP_10 };
    *req.headers_mut() = to_http(&r.hdrs);
    if r.informational {
        // the callback has to be Send + Sync: keep it index based
        let tag = i;
        hyper::ext::on_informational(&mut req, move |res| {
            let st = res.status().as_u16();
            let h = hmap_http(res.headers());
            INFORMS.with(|v| v.borrow_mut().push((tag, st, h)));
        });
    }
    req
}
thread_local! {
    static INFORMS: RefCell<Vec<(usize, u16, HMap)>> = const { RefCell::new(Vec::new()) };
}

type SendFut = Pin<Box<dyn Future<Output = Result<http::Response<hyper::body::Incoming>, (hyper::Error, Option<http::Request<SimBody>>)>>>>;

async fn outcome(i: usize, r: CReq, f: SendFut, sh: Rc<RefCell<Shared>>) {
    let mut f = Some(f);
    let mut to = r.cancel.map(sleep);
    let res = std::future::poll_fn(|cx| {
        if let Poll::Ready(x) = f.as_mut().unwrap().as_mut().poll(cx) {
            return Poll::Ready(Some(x));
        }
        if let Some(t) = &mut to {
            if Pin::new(t).poll(cx).is_ready() {
                return Poll::Ready(None);
            }
        }
        Poll::Pending
    })
    .await;
    drop(f.take());
    match res {
        None => {
            count("cancelled_requests");
            tr(|| format!("  caller cancels request {i}"));
            let mut s = sh.borrow_mut();
            s.outs[i].cancelled = true;
            s.outs[i].done = true;
        }
        Some(Err((e, m))) => {
            tr(|| format!("  request {i} failed: {e:?} (returned: {})", m.is_some()));
            if let Some(m) = &m {
                if m.uri().to_string() != r.target || m.method().as_str() != r.method {
                    violate("wrong-request-returned", format!("request {i}: the error hands back {} {}", m.method(), m.uri()));
                }
            }
            note(0xe44 + i as u64);
            let mut s = sh.borrow_mut();
            s.outs[i].result = Some(Res::Err { flags: flags(&e), text: format!("{e:?}"), returned: m.is_some() });
            s.outs[i].done = true;
        }
        Some(Ok(resp)) => {
            let (p, body) = resp.into_parts();
            tr(|| format!("  request {i} answered {}", p.status));
            note(0x0c + p.status.as_u16() as u64 + ((i as u64) << 20));
            let reason = p.extensions.get::<hyper::ext::ReasonPhrase>().map(|x| x.as_bytes().to_vec());
            let mut cb = CheckedBody::new(body, format!("resp{i}"));
            {
                let mut s = sh.borrow_mut();
                s.outs[i].result = Some(Res::Ok {
                    status: p.status.as_u16(),
                    v11: p.version == http::Version::HTTP_11,
                    hdrs: hmap_http(&p.headers),
                    reason,
                });
                s.outs[i].log = Some(cb.log.clone());
            }
            let fin = |sh: &Rc<RefCell<Shared>>| sh.borrow_mut().outs[i].done = true;
            let left = cb.log.borrow().first_exact;
            match r.read {
                ReadPlan::All => {
                    cb.read_all().await;
                    drop(cb);
                    fin(&sh);
                }
                ReadPlan::Drop => {
                    drop(cb);
                    fin(&sh);
                }
                ReadPlan::Frames(n) => {
                    for _ in 0..n {
                        match cb.frame().await {
                            Some(Ok(_)) => {}
                            _ => break,
                        }
                    }
                    drop(cb);
                    fin(&sh);
                }
                ReadPlan::Side(d) => {
                    let sh = sh.clone();
                    spawn_in(7, "body-reader", async move {
                        hold(d, left).await;
                        cb.read_all().await;
                        sh.borrow_mut().outs[i].done = true;
                    });
                }
                ReadPlan::Hold(d) => {
                    let sh = sh.clone();
                    spawn_in(7, "body-holder", async move {
                        hold(d, left).await;
                        drop(cb);
                        sh.borrow_mut().outs[i].done = true;
                    });
                }
            }
        }
    }
}

// ---- the scenario -----------------------------------------------------------

#[derive(Clone, Debug)]
struct Cfg {
    writev: Option<bool>,
    title_case: bool,
    preserve: bool,
    max_buf: Option<usize>,
    exact: Option<usize>,
    max_headers: Option<usize>,
    lenient: Lenient,
    h09: bool,
}

pub fn run_family(focus: &'static str) {
    draw_knobs();
    INFORMS.with(|v| v.borrow_mut().clear());
    let mut cfg = Cfg {
        writev: pick(&[None, None, Some(true), Some(false)]),
        title_case: wc(1, 6),
        preserve: wc(1, 6),
        max_buf: pick(&[None, None, Some(8192), Some(16_384)]),
        exact: pick(&[None, None, None, None, Some(8192), Some(5000)]),
        max_headers: pick(&[None, None, Some(40), Some(150)]),
        lenient: if wc(1, 8) { Lenient { fold: wc(1, 2), space: wc(1, 2), skip: wc(1, 2), gaps: false } } else { Lenient::default() },
        h09: wc(1, 12),
    };
    let n = match ww(&[2, 3, 2, 1]) {
        0 => 1,
        1 => 2,
        2 => 3,
        _ => wr(4, 7) as usize,
    };
    let n = if focus == "C16" { n.min(2) } else { n };
    if focus == "C16" && wc(3, 4) {
        cfg.max_buf = pick(&[Some(8192), Some(10_000), Some(16_384)]);
    }
    let seq = !wc(1, if focus == "C07" { 2 } else { 5 });
    let mut reqs: Vec<CReq> = (0..n).map(|i| gen_creq(i, focus)).collect();
    if !seq && wc(1, 8) {
        // one after the other without asking whether there is room
        let from = wd(n as u32) as usize;
        for r in &mut reqs[from..] {
            r.ready_first = false;
            r.gap = 0;
        }
    }
    let early = if wc(1, if focus == "C02" { 10 } else { 40 }) { b"HTTP/1.1 299 early\r\ncontent-length: 0\r\n\r\n".to_vec() } else { Vec::new() };
    let msgs: Vec<SMsg> = (0..n).map(|i| gen_smsg(i, &reqs[i], focus, cfg.lenient, cfg.h09 && i == 0 && early.is_empty())).collect();
    let has_early = !early.is_empty();
    let (mut k0, mut k1) = (draw_io(), draw_io());
    if focus == "C16" {
        for k in [&mut k0, &mut k1] {
            k.cap = pick(&[200, 1024, 5000, 16384]);
            k.latency = k.latency.min(50_000);
        }
    }
    let faults = matches!(focus, "C05" | "C18" | "C22" | "C06" | "C07") && wc(2, 3);
    let killing = matches!(focus, "C05" | "C07" | "C22") && wc(1, 4);
    let keep_handle = wc(1, 2);
    let (csock, ssock) = connect("h1c", k0, k1);
    let conn = csock.conn;
    with(|w| w.net.conns[conn].watch[1] = false);
    let sh: Rc<RefCell<Shared>> = Rc::default();
    sh.borrow_mut().outs = vec![Out::default(); n];
    // handshake does no I/O for HTTP/1
    let mut b = hyper::client::conn::http1::Builder::new();
    if let Some(x) = cfg.writev {
        b.writev(x);
    }
    b.title_case_headers(cfg.title_case).preserve_header_case(cfg.preserve);
    if let Some(x) = cfg.max_buf {
        b.max_buf_size(x);
    } else if let Some(x) = cfg.exact {
        b.read_buf_exact_size(Some(x));
    }
    if let Some(x) = cfg.max_headers {
        b.max_headers(x);
    }
    b.allow_obsolete_multiline_headers_in_responses(cfg.lenient.fold).allow_spaces_after_header_name_in_responses(cfg.lenient.space).ignore_invalid_headers_in_responses(cfg.lenient.skip);
    b.http09_responses(cfg.h09);
    let mut hs = Box::pin(b.handshake::<_, SimBody>(csock));
    let (mut sr, c) = {
        let w = futures_noop();
        match hs.as_mut().poll(&mut std::task::Context::from_waker(&w)) {
            Poll::Ready(Ok(x)) => x,
            _ => {
                violate("handshake", "the HTTP/1 handshake did not complete at once".into());
                return;
            }
        }
    };
    drop(hs);
    let sh2 = sh.clone();
    let conn_task = spawn_in(1, "conn", async move {
        let r = c.await;
        tr(|| format!("  connection result {r:?}"));
        sh2.borrow_mut().conn_result = Some(r.map_err(|e| format!("{e:?}")));
    });
    if faults {
        let d = wd(3);
        let total: usize = msgs.iter().map(|m| m.bytes.len()).sum();
        let (kind, dirn, at) = if d < 2 {
            let mut bnd = vec![0usize];
            let mut x = 0;
            for m in &msgs {
                bnd.push(x + m.head_end);
                bnd.push(x + m.bytes.len());
                x += m.bytes.len();
            }
            let base = pick(&bnd);
            let at = match wd(3) {
                0 => wd(total as u32 + 1) as usize,
                1 => base,
                _ => (base + wd(9) as usize).saturating_sub(4),
            };
            (pick(&[Fault::Eof, Fault::Reset, Fault::Reset, Fault::ReadErr]), 1, at)
        } else {
            (pick(&[Fault::WriteErr, Fault::Reset]), 0, wd(1500) as usize)
        };
        plan_fault(conn, dirn, at as u64, kind);
        tr(|| format!("planned {kind:?} at byte {at} of dir {dirn}"));
    }
    let gate = Gate::new();
    let (sh3, g2, reqs2) = (sh.clone(), gate.clone(), reqs.clone());
    let msgs = Rc::new(msgs);
    let sv: Rc<RefCell<Server>> = Rc::default();
    let (sv3, msgs3, all_ready) = (sv.clone(), msgs.clone(), reqs.iter().all(|r| r.ready_first));
    let caller = spawn_in(3, "caller", async move {
        let mut abandoned = false;
        // accepted since this task last waited
        let mut queued = 0;
        for (i, r) in reqs2.iter().enumerate() {
            if r.gap > 0 || r.ready_first {
                queued = 0;
            }
            if r.gap > 0 {
                sleep(r.gap).await;
            }
            if r.ready_first {
                let x = sr.ready().await;
                let mut s = sh3.borrow_mut();
                s.outs[i].ready_ok = x.is_ok();
                s.outs[i].ready_err = x.is_err();
                tr(|| format!("  ready for {i}: {x:?}"));
                drop(s);
                // a request submitted inside the receiver's poll leaves the hint stale
                if x.is_ok() && seq && all_ready && with(|w| w.knobs.preempt == 0) && !has_early {
                    ready_check(i, conn, &reqs2, &msgs3, &sv3, &sh3);
                }
                if x.is_err() && abandoned {
                    continue;
                }
                abandoned = x.is_err();
            }
            let req = build_req(r, &sh3, i);
            sh3.borrow_mut().outs[i].submitted = true;
            sh3.borrow_mut().outs[i].read_at_submit = dir(conn, 1, |d| d.read_total) as usize;
            tr(|| format!("  caller submits request {i}"));
            let f: SendFut = if r.try_send {
                let f = sr.try_send_request(req);
                Box::pin(async move {
                    f.await.map_err(|mut e| {
                        let m = e.take_message();
                        (e.into_error(), m)
                    })
                })
            } else {
                let f = sr.send_request(req);
                Box::pin(async move { f.await.map_err(|e| (e, None)) })
            };
            let mut f = f;
            if !seq && with(|w| w.knobs.preempt == 0) {
                // (one that the connection wants, one to wait for it)
                match f.as_mut().poll(&mut std::task::Context::from_waker(&futures_noop())) {
                    Poll::Ready(x) => f = Box::pin(async move { x }),
                    Poll::Pending => {
                        queued += 1;
                        if queued > 2 {
                            violate("unbounded-queue", format!("{queued} requests were accepted at once by a connection that takes them one by one"));
                            return;
                        }
                    }
                }
            }
            let o = outcome(i, r.clone(), f, sh3.clone());
            if seq {
                o.await;
            } else {
                spawn_in(3, format!("outcome{i}"), o);
            }
        }
        sh3.borrow_mut().script_done = true;
        if keep_handle {
            g2.wait().await;
        }
        drop(sr);
        sh3.borrow_mut().handle_dropped = true;
        tr(|| "  handle dropped".into());
    });
    let ssock = Rc::new(ssock);
    let mut pauses = Vec::new();
    let c16 = focus == "C16";
    if if c16 { wc(2, 3) } else { wc(1, 5) } {
        for _ in 0..wr(1, 3) {
            pauses.push((wd(if c16 { 60_000 } else { 4000 }) as usize, wr(1, 20_000) as u64 * 1000));
        }
        pauses.sort();
    }
    let rt = spawn_in(2, "server-read", server_reader(ssock.clone(), sv.clone(), pauses));
    let wt = spawn_in(2, "server-write", server_writer(ssock.clone(), sv.clone(), msgs.clone(), early));
    drop(ssock);
    net::arm(conn);
    let buf = cfg.max_buf.unwrap_or(crate::f_h1s::DEFAULT_BUF);
    with(|w| {
        w.pull_bound = Some((conn, 0, buf));
        w.read_bound = Some((conn, 0, 2 * buf + 16_384));
    });
    let kill_at = if killing { Some(sd(300)) } else { None };
    let start = with(|w| w.steps);
    let stop = move || {
        let s = with(|w| w.steps) - start;
        if let Some(k) = kill_at {
            if s >= k as u64 && !task_done(conn_task) {
                count("conn_dropped");
                kill(conn_task);
            }
        }
        false
    };
    let end = run(Limits { max_steps: 60_000, horizon: 3600 * SEC }, stop);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 1 ended with {end:?} after {} steps", with(|w| w.steps)));
        return;
    }
    let killed = killing && sh.borrow().conn_result.is_none() && task_done(conn_task);
    INFORMS.with(|v| {
        let mut s = sh.borrow_mut();
        for (i, st, h) in v.borrow().iter() {
            s.outs[*i].informs.push((*st, h.clone()));
        }
    });
    let ctx = Ctx { reqs: &reqs, msgs: &msgs, sh: &sh, sv: &sv, conn, faults, killed, seq, early: has_early, cfg: &cfg };
    judge(&ctx, 1);
    if violated() {
        return;
    }
    gate.open();
    kill(wt);
    kill(rt);
    let end = run(Limits { max_steps: 60_000, horizon: 3600 * SEC }, || false);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 2 ended with {end:?}"));
        return;
    }
    if !task_done(caller) {
        violate("caller-stuck", "the transport ended but a caller is still waiting".into());
        return;
    }
    judge(&ctx, 2);
    if violated() {
        return;
    }
    released(conn_task, conn, 0, &[1, 3, 7]);
}
pub fn futures_noop() -> Waker {
    struct N;
    impl std::task::Wake for N {
        fn wake(self: std::sync::Arc<Self>) {}
    }
    Waker::from(std::sync::Arc::new(N))
}

struct Ctx<'a> {
    reqs: &'a [CReq],
    msgs: &'a [SMsg],
    sh: &'a Rc<RefCell<Shared>>,
    sv: &'a Rc<RefCell<Server>>,
    conn: usize,
    faults: bool,
    killed: bool,
    seq: bool,
    early: bool,
    cfg: &'a Cfg,
}

/// ready() said yes before request i: every earlier exchange on the wire must be over and reusable.
fn ready_check(i: usize, conn: usize, reqs: &[CReq], msgs: &[SMsg], sv: &Rc<RefCell<Server>>, _sh: &Rc<RefCell<Shared>>) {
    let out = dir(conn, 0, |d| d.written.clone());
    let mut pos = 0;
    while pos < out.len() {
        let Ok(m) = parse_request(&out, pos) else { return };
        if !m.head_done {
            return;
        }
        let j = req_index(&m.start[1]);
        if j >= reqs.len() {
            return;
        }
        // an early answer can finish the exchange before the request is flushed
        if !m.complete && msgs[j].wait_all {
            violate("ready-early", format!("the handle was ready for request {i} while request {j} was only partly written"));
            return;
        }
        if sv.borrow().stream.iter().any(|x| x.2 == usize::MAX) {
            return;
        }
        if reqs[j].wants_close || !msgs[j].persist || msgs[j].kind != Kind::Good {
            violate("ready-must-close", format!("the handle was ready for request {i} though exchange {j} forbids reuse"));
            return;
        }
        pos = m.end;
    }
}

impl Ctx<'_> {
    /// request i is the last one that can have reached the wire
    fn outs_after(&self, outs: &[Out], i: usize) -> bool {
        outs.iter().skip(i + 1).all(|o| !matches!(o.result, Some(Res::Ok { .. })))
    }
}

/// Which body a request may carry on the wire, and whether it may be complete.
fn wire_body(r: &CReq, v11: bool) -> (Vec<u8>, Fin) {
    let has = |n: &str| r.hdrs.iter().any(|(k, _)| k == n);
    if r.body.eos && r.body.steps.is_empty() {
        return (vec![], Fin::Yes);
    }
    if r.body.declared().is_none() && !has("content-length") {
        let te = has("transfer-encoding");
        if !v11 || (!te && matches!(r.method.as_str(), "GET" | "HEAD" | "CONNECT")) {
            return (vec![], Fin::Yes);
        }
    }
    out_body(&r.body)
}

fn judge(c: &Ctx, phase: u32) {
    let s = c.sh.borrow();
    let sv = c.sv.borrow();
    let out = dir(c.conn, 0, |d| d.written.clone());
    let fired = c.faults && net::any_fault_fired(c.conn);
    let read = dir(c.conn, 1, |d| d.read_total) as usize;
    let done = s.conn_result.is_some() || c.killed;
    let mut pos = 0;
    let mut wire: Vec<(usize, Msg)> = Vec::new();
    let mut partial: Option<usize> = None;
    // --- requests on the wire
    while pos < out.len() {
        let m = match parse_request(&out, pos) {
            Ok(m) => m,
            Err(e) => {
                violate("request-syntax", format!("byte {pos} of the client's output: {e}: {}", shorten(&out[pos..])));
                return;
            }
        };
        if !m.head_done {
            partial = Some(pos);
            if !done && !fired {
                violate("request-partial", format!("a request head stays incomplete: {}", shorten(&out[pos..])));
            }
            break;
        }
        let i = req_index(&m.start[1]);
        if i >= c.reqs.len() || !s.outs[i].submitted {
            violate("request-unsubmitted", format!("nobody submitted {} {}", m.start[0], m.start[1]));
            return;
        }
        if let Some((p, prev)) = wire.last() {
            if *p >= i {
                violate("request-order", format!("request {i} written after request {p}"));
                return;
            }
            if !prev.complete {
                violate("bytes-after-incomplete", format!("request {i} follows the incomplete request {p}"));
                return;
            }
            let k = wire.len() - 1;
            // the previous exchange must have been over
            let rd = net::read_when_written(c.conn, 0, m.begin as u64).unwrap_or(0) as usize;
            match sv.stream.get(k) {
                Some(&(_, end, what)) => {
                    if rd < end && sv.stream[..=k].iter().all(|x| x.2 != usize::MAX) {
                        violate("request-before-response", format!("request {i} was written when {rd} bytes had been read; the response to the request before ends at {end}"));
                        return;
                    }
                    // an answer written for another request (a stray one came
                    // first) reads differently when it lands on a HEAD
                    let shifted = what != *p && c.reqs[*p].method == "HEAD";
                    let bad = |m: &SMsg| !shifted && (!m.persist || m.kind != Kind::Good);
                    if what != usize::MAX && (c.reqs[*p].wants_close || bad(&c.msgs[what])) {
                        violate("request-on-closing", format!("request {i} was written although exchange {p} forbids reuse"));
                        return;
                    }
                }
                None => {
                    violate("request-before-response", format!("request {i} was written before the response to {p} was sent"));
                    return;
                }
            }
        }
        let r = &c.reqs[i];
        let v11 = m.start[2] == "HTTP/1.1";
        // after an HTTP/1.0 answer the client speaks HTTP/1.0
        let rd = net::read_when_written(c.conn, 0, m.begin as u64).unwrap_or(0) as usize;
        let seen10 = sv.stream.iter().any(|x| x.2 != usize::MAX && x.0 < rd && !c.msgs[x.2].v11);
        if m.start[0] != r.method || m.start[1] != r.target {
            violate("request-line", format!("request {i}: wrote {} {}", m.start[0], m.start[1]));
            return;
        }
        if v11 != r.v11 && !(r.v11 && seen10) {
            violate("request-version", format!("request {i}: wrote {}", m.start[2]));
            return;
        }
        if !check_head(i, r, &m, v11, seen10) {
            return;
        }
        let (want, fin) = wire_body(r, v11);
        if !want.starts_with(&m.body) {
            violate("request-body", format!("request {i}: expected {} wrote {}", shorten(&want), shorten(&m.body)));
            return;
        }
        if let (Framing::Len(n), Some(d)) = (&m.framing, r.body.declared()) {
            if *n != d && !(r.body.eos && r.body.steps.is_empty()) {
                violate("request-declared", format!("request {i}: declared {d}, wire says {n}"));
                return;
            }
        }
        if m.complete {
            if fin == Fin::No {
                violate("failed-body-complete", format!("request {i}: its body failed but the message is complete on the wire"));
                return;
            }
            if m.body.len() != want.len() {
                violate("request-body-short", format!("request {i}: {} of {} bytes in a complete message", m.body.len(), want.len()));
                return;
            }
            let all: HMap = r.body.trailers().map(|t| hmap_http(&t)).unwrap_or_default();
            let named = tokens(&r.hdrs.iter().filter(|h| h.0 == "trailer").map(|h| h.1.clone()).collect::<Vec<_>>());
            let allowed: HMap = all.into_iter().filter(|(n, _)| named.contains(n)).collect();
            let sent = hmap(&m.trailers);
            let allowed = if m.framing == Framing::Chunked { allowed } else { HMap::new() };
            if sent != allowed {
                violate("request-trailers", format!("request {i}: expected [{}] wrote [{}]", show_hmap(&allowed), show_hmap(&sent)));
                return;
            }
        } else if !done && !fired {
            violate("request-stuck", format!("request {i} is incomplete on the wire at quiescence ({} of {} body bytes)", m.body.len(), want.len()));
            return;
        }
        pos = m.end;
        let complete = m.complete;
        wire.push((i, m));
        if !complete {
            if pos < out.len() {
                violate("bytes-after-incomplete", format!("{} bytes follow incomplete request {i}", out.len() - pos));
                return;
            }
            break;
        }
    }
    // --- outcomes
    let mut must = true; // every exchange so far left the connection usable
    for (i, o) in s.outs.iter().enumerate() {
        let r = &c.reqs[i];
        if !o.submitted {
            if must && c.seq && o.ready_err && !fired && !c.killed && !c.early {
                violate("closed-needlessly", format!("ready() failed for request {i} though the connection was to be kept ({:?})", s.conn_result));
                return;
            }
            continue;
        }
        let k = wire.iter().position(|w| w.0 == i);
        if o.result.is_none() && !o.cancelled {
            if s.conn_result.is_none() && sv.stream.iter().any(|x| x.2 == usize::MAX) {
                // a stray answer shifted the rest: the answer being read may
                // declare more bytes than the server sends
                count("unresolved_after_stray");
                break;
            }
            violate("request-unresolved", format!("request {i} has no outcome at quiescence (on wire: {}, connection {:?})", k.is_some(), s.conn_result));
            return;
        }
        let Some(res) = &o.result else {
            must = false;
            continue;
        };
        let clean_run = must && !fired && !c.killed && !c.early && c.seq;
        match res {
            Res::Err { flags, text, returned } => {
                if *returned && k.is_some() {
                    violate("returned-but-sent", format!("request {i} was handed back as unsent ({text}) but is on the wire"));
                    return;
                }
                if flags.canceled && k.is_some() {
                    violate("canceled-but-sent", format!("request {i} failed as cancelled before being sent ({text}) but is on the wire"));
                    return;
                }
                if *returned && o.body_id.map_or(false, |b| with(|w| w.bodies[b].polls > 0)) {
                    violate("returned-used", format!("request {i} was handed back ({text}) after its body had been polled"));
                    return;
                }
                if flags.canceled && r.try_send && !*returned {
                    violate("not-handed-back", format!("request {i} was never started ({text}) but not handed back"));
                    return;
                }
                if flags.user && !c.killed && wire_body(r, true).1 == Fin::Yes {
                    violate("blames-caller", format!("request {i} failed as the caller's doing ({text}) though the caller did nothing wrong"));
                    return;
                }
                if clean_run && o.ready_ok {
                    let bad_resp = k.and_then(|k| sv.stream.get(k)).map_or(true, |x| x.2 == usize::MAX || c.msgs[x.2].kind != Kind::Good);
                    let bad_body = wire_body(r, true).1 != Fin::Yes;
                    if k.is_none() && !bad_body {
                        violate("request-unserved", format!("request {i} was accepted on a usable connection but never sent: {text}"));
                        return;
                    }
                    if !bad_resp && !bad_body {
                        violate("response-lost", format!("request {i} got a valid response but failed: {text}"));
                        return;
                    }
                    if k.is_some() && bad_resp && !bad_body && !flags.parse && sv.stream.get(k.unwrap()).map_or(false, |x| matches!(c.msgs[x.2].kind, Kind::BadHead(_))) && !flags.incomplete {
                        violate("error-kind", format!("request {i}: malformed response reported as {text}"));
                        return;
                    }
                }
                must = false;
            }
            Res::Ok { status, v11, hdrs, reason } => {
                // answered while its head was still being written, or buffered
                let cut = partial.is_some() || wire.last().map_or(false, |w| !w.1.complete);
                let stray = sv.stream.iter().any(|x| x.2 == usize::MAX);
                if k.is_none() && (cut || stray) && c.outs_after(&s.outs, i) {
                    must = false;
                    continue;
                }
                let Some(k) = k else {
                    violate("response-unsent", format!("request {i} got a response ({status}) but was never sent"));
                    return;
                };
                let Some(&(start, end, what)) = sv.stream.get(k) else {
                    violate("response-invented", format!("request {i} got response {status} but the server sent none"));
                    return;
                };
                // the first byte of that message must have been read after the request was written
                let w = net::written_when_read(c.conn, 1, start as u64).unwrap_or(0) as usize;
                let same_read = k > 0 && net::read_call_end(c.conn, 1, sv.stream[k - 1].1 as u64 - 1).unwrap_or(0) as usize > start;
                let stale = start < o.read_at_submit || same_read;
                let exact = sv.stream[..k].iter().all(|x| x.2 != usize::MAX) && !(what == usize::MAX && end - start <= 2);
                if w <= wire[k].1.begin && stale && exact && (k > 0 || what != usize::MAX) {
                    violate("response-before-request", format!("request {i} was given a response read before the request was sent"));
                    return;
                }
                if what == usize::MAX || sv.stream[..k].iter().any(|x| x.2 == usize::MAX) {
                    // stray bytes that arrived after the request was sent
                    must = false;
                    continue;
                }
                let m = &c.msgs[what];
                if let Kind::BadHead(n) = m.kind {
                    violate("bad-head-delivered", format!("request {i}: malformed response ({n}) delivered as {status}"));
                    return;
                }
                if what != i {
                    violate("wrong-response", format!("request {i} got the response to request {what}"));
                    return;
                }
                if *status != m.status || *v11 != m.v11 {
                    violate("response-status", format!("request {i}: sent {} 1.{} delivered {status} 1.{}", m.status, m.v11 as u8, *v11 as u8));
                    return;
                }
                let want = hmap(&m.hdrs);
                if *hdrs != want {
                    violate("response-headers", format!("request {i}: sent [{}] delivered [{}]", show_hmap(&want), show_hmap(hdrs)));
                    return;
                }
                let canon = http::StatusCode::from_u16(m.status).unwrap().canonical_reason();
                // a reason with non-ASCII bytes is dropped by the parser
                let rs = if m.reason.is_ascii() { m.reason.as_str() } else { "" };
                let wr = if Some(rs) == canon { None } else { Some(rs.as_bytes().to_vec()) };
                if *reason != wr {
                    violate("response-reason", format!("request {i}: reason {:?} delivered as {reason:?}", m.reason));
                    return;
                }
                if phase == 1 {
                    let wi: Vec<(u16, HMap)> = if r.informational { m.interims.iter().map(|x| (x.0, hmap(&x.1))).collect() } else { vec![] };
                    if o.informs != wi {
                        violate("interim", format!("request {i}: interim responses {:?} delivered as {:?}", wi.iter().map(|x| x.0).collect::<Vec<_>>(), o.informs.iter().map(|x| x.0).collect::<Vec<_>>()));
                        return;
                    }
                }
                let l = o.log.as_ref().unwrap().borrow();
                if !m.body.starts_with(&l.data) {
                    violate("response-body", format!("request {i}: sent {} delivered {}", shorten(&m.body), shorten(&l.data)));
                    return;
                }
                if let Framing::Len(n) = m.framing {
                    if l.first_exact != Some(n) {
                        violate("size-hint", format!("request {i}: declared {n}, size_hint {:?}", l.first_exact));
                        return;
                    }
                }
                if l.clean() {
                    if let Kind::BadBody(n, _) = m.kind {
                        violate("bad-body-clean", format!("request {i}: malformed body ({n}) ended cleanly"));
                        return;
                    }
                    // a close-delimited body may be cut by an orderly end only
                    let cut_ok = m.framing == Framing::Eof && fired && net::fault_fired(c.conn, 1, |f| *f == Fault::Eof);
                    if l.data.len() != m.body.len() && !cut_ok && !(m.framing == Framing::Eof && phase == 2 && !fired && read < end) {
                        violate("truncated-clean", format!("request {i}: clean end after {} of {} bytes", l.data.len(), m.body.len()));
                        return;
                    }
                    if m.framing != Framing::Eof && read < end {
                        violate("truncated-clean", format!("request {i}: clean end though {} bytes of the message had not arrived", end - read));
                        return;
                    }
                    if m.framing == Framing::Eof && !dir(c.conn, 1, |d| d.eof_seen) {
                        violate("truncated-clean", format!("request {i}: close-delimited body ended cleanly without an orderly end of the transport"));
                        return;
                    }
                    let (wt, gt) = (hmap(&m.trailers), l.trailers.as_ref().map(hmap_http).unwrap_or_default());
                    if wt != gt {
                        violate("response-trailers", format!("request {i}: sent [{}] delivered [{}]", show_hmap(&wt), show_hmap(&gt)));
                        return;
                    }
                } else if l.errored() && m.kind == Kind::Good && !fired && !c.killed && wire_body(r, true).1 == Fin::Yes && phase == 1 {
                    violate("response-body-error", format!("request {i}: complete valid body reported as {:?}", l.end));
                    return;
                } else if phase == 1 && l.end == BodyEnd::Open && !fired && !c.killed {
                    violate("body-stuck", format!("request {i}: its response body is still open at quiescence after {} of {} bytes", l.data.len(), m.body.len()));
                    return;
                }
                let no_body = m.framing == Framing::None || m.framing == Framing::Len(0);
                let m_ok = m.kind == Kind::Good
                    && m.persist
                    && !r.wants_close
                    && r.v11
                    && m.extra.is_empty()
                    && !m.close
                    && (l.clean() || no_body)
                    && wire[k].1.complete
                    && wire_body(r, true).1 == Fin::Yes
                    && matches!(r.read, ReadPlan::All);
                must = must && m_ok;
            }
        }
    }
    if fired || c.killed {
        return;
    }
    let clean = must && !c.early && c.seq;
    // --- the connection itself
    if phase == 1 && clean {
        if s.handle_dropped && !done {
            violate("conn-never-ends", "the handle is gone and all exchanges are over but the connection stays open".into());
            return;
        }
        if !s.handle_dropped && done {
            violate("closed-needlessly", format!("connection ended ({:?}) though idle, reusable and its handle alive", s.conn_result));
            return;
        }
    }
    // after an exchange that forbids reuse the connection closes by itself
    if phase == 1 && !done {
        if let Some((i, m)) = wire.last() {
            let o = &s.outs[*i];
            if let (Some(Res::Ok { .. }), Some(&(_, _, what))) = (&o.result, sv.stream.get(wire.len() - 1)) {
                if m.complete && o.done && what != usize::MAX && (c.reqs[*i].wants_close || !c.msgs[what].persist) {
                    violate("close-missing", format!("exchange {i} forbids reuse but the connection stays open"));
                    return;
                }
            }
        }
    }
    if let Some(Ok(())) = s.conn_result {
        let errs = s.outs.iter().any(|o| o.cancelled || matches!(o.result, Some(Res::Err { .. })));
        if !errs && !dir(c.conn, 0, |d| d.shutdown_called || d.werr.is_some()) && phase == 1 {
            violate("no-shutdown", "connection ended Ok without shutting the transport down".into());
            return;
        }
        // a failed request body must be reported to somebody
        for (i, o) in s.outs.iter().enumerate() {
            let on_wire = wire.iter().any(|w| w.0 == i && !w.1.complete);
            if on_wire && wire_body(&c.reqs[i], true).1 == Fin::No && !errs && !o.cancelled && phase == 1 && o.body_id.map_or(false, |b| with(|w| w.bodies[b].errored || w.bodies[b].ended)) {
                let resp_err = o.log.as_ref().map_or(false, |l| l.borrow().errored());
                if !resp_err {
                    violate("failure-swallowed", format!("request {i}'s body failed but nobody was told"));
                    return;
                }
            }
        }
    }
    let _ = c.cfg;
}

fn check_head(i: usize, r: &CReq, m: &Msg, v11: bool, seen10: bool) -> bool {
    let mut got = hmap(&m.hdrs);
    let mut want = hmap(&r.hdrs);
    let gc = tokens(&got.remove("connection").unwrap_or_default());
    let wc_ = tokens(&want.remove("connection").unwrap_or_default());
    let gt = tokens(&got.remove("transfer-encoding").unwrap_or_default());
    let wt = tokens(&want.remove("transfer-encoding").unwrap_or_default());
    let gl = got.remove("content-length").unwrap_or_default();
    let wl = want.remove("content-length").unwrap_or_default();
    if got != want {
        violate("request-headers", format!("request {i}: gave [{}] wrote [{}]", show_hmap(&want), show_hmap(&got)));
        return false;
    }
    if wc_.contains(&"close".to_string()) != gc.contains(&"close".to_string()) {
        violate("request-connection", format!("request {i}: connection {wc_:?} became {gc:?}"));
        return false;
    }
    for t in &gc {
        if !wc_.contains(t) && !(t == "keep-alive" && (seen10 || !v11)) {
            violate("request-connection", format!("request {i}: connection {wc_:?} became {gc:?}"));
            return false;
        }
    }
    for t in &wc_ {
        if !gc.contains(t) && !gc.contains(&"close".to_string()) && !seen10 {
            violate("request-connection", format!("request {i}: connection {wc_:?} became {gc:?}"));
            return false;
        }
    }
    if v11 && !wt.is_empty() && !wt.iter().all(|t| gt.contains(t)) {
        violate("request-te", format!("request {i}: transfer-encoding {wt:?} became {gt:?}"));
        return false;
    }
    if matches!(r.body.hint, Hint::Says(_)) && r.body.eos && r.body.steps.is_empty() && (gl.is_empty() || gl == [b"0".to_vec()]) {
        // an empty body may be declared as what it is
        return true;
    }
    if !wl.is_empty() && gt.is_empty() && gl != wl {
        violate("request-length-field", format!("request {i}: content-length {wl:?} became {gl:?}"));
        return false;
    }
    true
}
