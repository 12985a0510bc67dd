//! Family seg: the same bytes are given to several real hyper HTTP/1
//! connections, each under its own segmentation and transport behaviour, and
//! what comes of them must not differ; streams made to sit at, just under or
//! beyond a limit must also be accepted or refused as documented (C17).
use crate::body::*;
use crate::core::*;
use crate::f_h1s::{flags, gen_bad, gen_req, DEFAULT_BUF};
use crate::gen::*;
use crate::h1ref::{self, *};
use crate::net::{self, *};
use std::cell::RefCell;
use std::rc::Rc;

const K: usize = 3;

/// What the content alone decides.
#[derive(Clone, Debug, PartialEq)]
enum Verdict {
    /// nothing is known beyond equality
    Any,
    /// all of it is within the limits
    Accept,
    /// refused with this status (0: none) at message `at`
    Head { status: u16, at: usize },
    /// the body of message `at` is refused
    Body { at: usize },
    /// near a limit: either way, but alike
    Either,
    /// longer than the buffer, but maybe not than what is read ahead
    Ahead,
}
#[derive(Clone, Debug)]
struct Case {
    what: &'static str,
    wire: Vec<u8>,
    eof: bool,
    verdict: Verdict,
    /// messages before and including the judged one
    n: usize,
    /// data and trailers of the judged message, when known
    body: Option<(Vec<u8>, usize)>,
    /// places at which splitting the stream is of interest
    marks: Vec<usize>,
    /// what may be read at most of a refused stream
    bound: usize,
    max_buf: Option<usize>,
    exact: Option<usize>,
    max_headers: Option<usize>,
    ignore_bad: bool,
    /// spaces after names, folded lines (client)
    lenient: (bool, bool),
}
#[derive(Clone, Debug, Default, PartialEq)]
struct MsgSeen {
    /// start line as delivered
    start: String,
    hdrs: HMap,
    data: Vec<u8>,
    trailers: Option<HMap>,
    /// 0 open, 1 clean, 2 error
    end: u8,
}
#[derive(Clone, Debug, Default)]
struct Seen {
    msgs: Vec<MsgSeen>,
    informs: Vec<(u16, HMap)>,
    out: Vec<u8>,
    /// the connection future
    result: Option<Result<(), (bool, String)>>,
    /// the request future (client)
    failed: Option<(bool, String)>,
}
thread_local! {
    static INFORMS: RefCell<Vec<(usize, u16, HMap)>> = const { RefCell::new(Vec::new()) };
}
type SeenRef = Rc<RefCell<Seen>>;

// ---- streams -------------------------------------------------------------------

fn mutate(v: &mut Vec<u8>, marks: &mut Vec<usize>) {
    let n = wr(1, 4);
    for _ in 0..n {
        if v.is_empty() {
            return;
        }
        // mostly near structure: line ends, colons, digits
        let at = if wc(2, 3) {
            let spots: Vec<usize> = (0..v.len()).filter(|&i| matches!(v[i], b'\r' | b'\n' | b':' | b';' | b' ' | b'0'..=b'9')).collect();
            if spots.is_empty() {
                wd(v.len() as u32) as usize
            } else {
                spots[wd(spots.len() as u32) as usize]
            }
        } else {
            wd(v.len() as u32) as usize
        };
        let b = pick(&[b'\r', b'\n', b':', b' ', b'\t', b'0', b';', b',', b'5', b'a', 0x80, 0, 0x7f, b'\r', b'\n', b'=']);
        match wd(6) {
            0 => v[at] = b,
            1 => v.insert(at, b),
            2 => {
                v.remove(at);
            }
            3 => {
                let l = (wr(1, 12) as usize).min(v.len() - at);
                let d = v[at..at + l].to_vec();
                v.splice(at..at, d);
            }
            4 => {
                let l = (wr(1, 12) as usize).min(v.len() - at);
                v.drain(at..at + l);
            }
            _ => {
                let e = pick(&[&b"\r\n"[..], b"\r\n\r\n", b"\n\n", b"\r\n \r\n", b"0\r\n\r\n", b"\r\n0\r\n", b"\n\r\n", b"HTTP/1.1", b"chunked"]);
                v.splice(at..at, e.iter().copied());
            }
        }
        marks.push(at);
    }
}

fn plain_get(out: &mut Vec<u8>, name: &str) {
    out.extend_from_slice(format!("GET /{name} HTTP/1.1\r\nhost: a\r\n\r\n").as_bytes());
}
/// A head of exactly `len` bytes: start line, then fields.
fn sized_head(start: &str, first: &str, len: usize) -> Vec<u8> {
    let mut v = format!("{start}\r\n{first}").into_bytes();
    let many = wc(1, 2);
    let mut k = 0;
    while len > v.len() + 4 + 2 {
        let room = len - v.len() - 2;
        // "xNN: value\r\n"
        let name = format!("x{k}: ");
        if room < name.len() + 2 + 1 {
            break;
        }
        let mut m = room - name.len() - 2;
        if many && k < 20 {
            m = m.min(wr(1, 1 + (len / 20) as u32) as usize);
            // never leave a rest that no field fits into
            let rest = room - name.len() - 2 - m;
            if rest > 0 && rest < 12 {
                m += rest;
            }
        }
        v.extend_from_slice(name.as_bytes());
        v.extend(std::iter::repeat(b'v').take(m));
        v.extend_from_slice(b"\r\n");
        k += 1;
    }
    // what is left goes into the last value
    let short = len.saturating_sub(v.len() + 2);
    if short > 0 {
        let at = v.len() - 2;
        v.splice(at..at, std::iter::repeat(b'w').take(short));
    }
    v.extend_from_slice(b"\r\n");
    v
}
fn around(limit: usize, below: usize) -> usize {
    match ww(&[3, 3, 3, 2]) {
        0 => limit - wd(3).min(limit as u32 - 1) as usize,
        1 => limit + wr(1, 3) as usize,
        2 => limit.saturating_sub(wr(0, below as u32) as usize).max(1),
        _ => limit * 2 + 70_000,
    }
}
/// A chunked body with its extensions and trailers, each near its limit or not.
/// Returns (bytes, data, trailers, verdict, marks relative to it)
fn limit_body(kind: u32, max_headers: usize) -> (Vec<u8>, Vec<u8>, usize, Verdict, Vec<usize>) {
    let mut out = Vec::new();
    let mut data = Vec::new();
    let mut marks = Vec::new();
    let mut verdict = Verdict::Accept;
    let chunks = wr(1, 6) as usize;
    let mut ext = vec![0usize; chunks + 1];
    if kind == 0 {
        let total = around(16_383, 4_000);
        match total {
            t if t <= 16_383 => {}
            t if t <= 16_400 => verdict = Verdict::Either,
            _ => verdict = Verdict::Body { at: 0 },
        }
        let mut left = total;
        for e in ext.iter_mut() {
            *e = if wc(1, 3) { 0 } else { wd(left as u32 + 1) as usize };
            left -= *e;
        }
        let i = wd(chunks as u32 + 1) as usize;
        ext[i] += left;
    }
    for i in 0..=chunks {
        let d = if i == chunks { vec![] } else { content(i as u32 + 50, wr(1, 60) as usize) };
        out.extend_from_slice(format!("{:x}", d.len()).as_bytes());
        if wc(1, 6) {
            out.extend_from_slice(b" ");
        }
        if ext[i] > 0 {
            out.push(b';');
            marks.push(out.len());
            out.extend((0..ext[i]).map(|j| b"abc=\"d; e\"\t"[j % 11]));
            marks.push(out.len());
        }
        out.extend_from_slice(b"\r\n");
        if i < chunks {
            out.extend_from_slice(&d);
            out.extend_from_slice(b"\r\n");
            data.extend_from_slice(&d);
        }
    }
    let mut nt = 0;
    match kind {
        1 => {
            nt = match ww(&[3, 3, 1]) {
                0 => max_headers.saturating_sub(wd(2) as usize),
                1 => max_headers + wr(1, 2) as usize,
                _ => max_headers + wr(3, 60) as usize,
            };
            if nt > max_headers {
                verdict = Verdict::Body { at: 0 };
            }
            for j in 0..nt {
                if j + 2 > max_headers {
                    marks.push(out.len());
                }
                out.extend_from_slice(format!("t{j}: v\r\n").as_bytes());
            }
            if nt * 9 > 16_000 {
                verdict = Verdict::Either;
            }
        }
        2 => {
            // trailers of a total size, the empty line included
            let total = match ww(&[3, 3, 2, 1]) {
                0 => 16_384 - wr(1, 40) as usize,
                1 => 16_384 + wr(20, 60) as usize,
                2 => 16_384 - 10 + wd(20) as usize,
                _ => 16_384 * 3,
            };
            verdict = match total {
                t if t < 16_384 => Verdict::Accept,
                t if t <= 16_390 => Verdict::Either,
                _ => Verdict::Body { at: 0 },
            };
            let base = out.len();
            nt = wr(1, (max_headers as u32).min(9)) as usize;
            let each = (total - 2) / nt;
            for j in 0..nt {
                let l = if j + 1 == nt { total - 2 - each * (nt - 1) } else { each };
                out.extend_from_slice(format!("t{j}: ").as_bytes());
                out.extend(std::iter::repeat(b'v').take(l - 6));
                out.extend_from_slice(b"\r\n");
                marks.push(out.len() - 2);
            }
            debug_assert_eq!(out.len() - base, total - 2);
            marks.push((base + 16_384).min(out.len()));
        }
        _ => {}
    }
    out.extend_from_slice(b"\r\n");
    (out, data, nt, verdict, marks)
}

fn server_case(focus: &str) -> Case {
    let mut c = Case {
        what: "valid",
        wire: vec![],
        eof: wc(1, 4),
        verdict: Verdict::Any,
        n: 0,
        body: None,
        marks: vec![],
        bound: usize::MAX,
        max_buf: pick(&[None, None, Some(8192), Some(10_000), Some(65_536)]),
        exact: None,
        max_headers: pick(&[None, None, None, Some(30), Some(200)]),
        ignore_bad: wc(1, 6),
        lenient: (wc(1, 8), wc(1, 5)),
    };
    let kind = match focus {
        "C17" => ww(&[1, 3, 1, 8]),
        _ => ww(&[2, 8, 3, 1]),
    };
    if kind < 3 {
        let n = wr(1, 4);
        for i in 0..n {
            let mut r = gen_req(i, "C01");
            if r.method == "CONNECT" {
                r.wire = b"GET / HTTP/1.1\r\n\r\n".to_vec();
            }
            c.wire.extend_from_slice(&r.wire);
            c.marks.push(c.wire.len());
        }
        match kind {
            1 => {
                c.what = "mutated";
                mutate(&mut c.wire, &mut c.marks);
                c.wire.extend_from_slice(b"\r\n\r\n\r\n\r\n");
            }
            2 => {
                c.what = "malformed";
                let r = gen_bad(n);
                c.wire.extend_from_slice(&r.wire);
                plain_get(&mut c.wire, "after");
                c.wire.extend_from_slice(b"\r\n\r\n");
            }
            _ => {}
        }
        return c;
    }
    c.eof = false;
    c.ignore_bad = false;
    let pre = wd(3) as usize;
    for i in 0..pre {
        if wc(1, 2) {
            plain_get(&mut c.wire, &format!("pre{i}"));
        } else {
            c.wire.extend_from_slice(format!("POST /pre{i} HTTP/1.1\r\nhost: a\r\ncontent-length: 11\r\n\r\nhello world").as_bytes());
        }
    }
    c.n = pre;
    let start = c.wire.len();
    let mb = c.max_buf.unwrap_or(DEFAULT_BUF);
    let mh = c.max_headers.unwrap_or(100);
    match ww(&[3, 3, 2, 2, 2, 2, 1, 1]) {
        0 => {
            c.what = "head-size";
            let len = around(mb, 600).max(40);
            c.verdict = match len {
                l if l <= mb => Verdict::Accept,
                l if l <= 2 * mb + 65_536 => Verdict::Ahead,
                _ => Verdict::Head { status: 431, at: pre },
            };
            c.wire.extend(sized_head("GET /judged HTTP/1.1", "", len));
            c.marks.extend([start + mb.min(len) - 1, start + mb.min(len)]);
            c.bound = start + 2 * mb + 65_536;
            c.body = Some((vec![], 0));
        }
        1 => {
            c.what = "header-count";
            let n = match ww(&[3, 3, 1]) {
                0 => mh - wd(2) as usize,
                1 => mh + wr(1, 2) as usize,
                _ => mh + wr(1, 200) as usize,
            };
            c.verdict = if n <= mh { Verdict::Accept } else { Verdict::Head { status: 431, at: pre } };
            c.wire.extend_from_slice(b"GET /judged HTTP/1.1\r\n");
            for i in 0..n {
                if i + 2 > mh {
                    c.marks.push(c.wire.len());
                }
                c.wire.extend_from_slice(format!("x{i}: v\r\n").as_bytes());
            }
            c.wire.extend_from_slice(b"\r\n");
            c.body = Some((vec![], 0));
        }
        2 => {
            c.what = "target-length";
            c.max_buf = pick(&[None, Some(200_000)]);
            let len = pick(&[65_533usize, 65_534, 65_535, 65_536, 70_000, 100_000]);
            c.verdict = if len <= 65_534 { Verdict::Accept } else { Verdict::Head { status: 414, at: pre } };
            let mut t = String::from("/judged");
            if wc(1, 2) {
                t.push('?');
            }
            while t.len() < len {
                t.push('p');
            }
            c.wire.extend_from_slice(format!("GET {t} HTTP/1.1\r\nhost: a\r\n\r\n").as_bytes());
            c.marks.push(start + len + 4);
            c.body = Some((vec![], 0));
        }
        k @ (3 | 4 | 5) => {
            c.what = ["ext-size", "trailer-count", "trailer-size"][k - 3];
            if k == 4 {
                c.max_headers = pick(&[None, Some(30), Some(200), Some(5)]);
            }
            let mh = c.max_headers.unwrap_or(100);
            let (b, data, nt, v, marks) = limit_body(k as u32 - 3, mh);
            c.wire.extend_from_slice(b"POST /judged HTTP/1.1\r\nhost: a\r\ntransfer-encoding: chunked\r\n\r\n");
            let s = c.wire.len();
            c.marks.extend(marks.iter().map(|m| s + m));
            c.wire.extend(b);
            c.verdict = match v {
                Verdict::Body { .. } => Verdict::Body { at: pre },
                v => v,
            };
            c.body = Some((data, nt));
        }
        6 => {
            c.what = "endless-head";
            c.verdict = Verdict::Head { status: 431, at: pre };
            c.wire.extend_from_slice(pick(&[&b"GET /judged HTTP/1.1\r\nx: "[..], b"GET /judged", b"GET /judged HTTP/1.1\r\nhost: a\r\n", b"G"]));
            let l = 3 * mb + 200_000;
            if c.wire.ends_with(b"\n") {
                while c.wire.len() < start + l {
                    c.wire.extend_from_slice(b"y: vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv\r\n");
                }
                // more fields than allowed comes first or not
            } else {
                c.wire.extend(std::iter::repeat(b'A').take(l));
            }
            c.bound = start + 2 * mb + 65_536;
            return c;
        }
        _ => {
            c.what = "endless-body-meta";
            c.verdict = Verdict::Body { at: pre };
            c.wire.extend_from_slice(b"POST /judged HTTP/1.1\r\nhost: a\r\ntransfer-encoding: chunked\r\n\r\n");
            if wc(1, 3) {
                c.wire.extend_from_slice(b"3\r\nabc\r\n");
            }
            let l = 2 * mb + 400_000;
            match wd(4) {
                0 => {
                    c.wire.extend_from_slice(b"3;");
                    c.wire.extend(std::iter::repeat(b'e').take(l));
                }
                1 => {
                    while c.wire.len() < start + l {
                        c.wire.extend_from_slice(b"1;ee=ffffffffffffffffffffffffffffffff\r\nx\r\n");
                    }
                }
                2 => {
                    c.wire.extend_from_slice(b"0\r\nt: ");
                    c.wire.extend(std::iter::repeat(b'e').take(l));
                }
                _ => {
                    c.wire.extend_from_slice(b"0\r\n");
                    while c.wire.len() < start + l {
                        c.wire.extend_from_slice(b"t: ffffffffffffffffffffffffffffffff\r\n");
                    }
                }
            }
            c.bound = start + 100_000 + 2 * mb + 65_536;
            return c;
        }
    }
    if wc(3, 4) {
        plain_get(&mut c.wire, "after");
        c.n += 1;
    }
    c.n += 1;
    c
}

fn client_case(focus: &str, method: &str) -> Case {
    let mut c = Case {
        what: "valid",
        wire: vec![],
        eof: false,
        verdict: Verdict::Any,
        n: 1,
        body: None,
        marks: vec![],
        bound: usize::MAX,
        max_buf: pick(&[None, None, Some(8192), Some(10_000), Some(65_536)]),
        exact: None,
        max_headers: pick(&[None, None, None, Some(30), Some(200)]),
        ignore_bad: wc(1, 6),
        lenient: (wc(1, 8), wc(1, 5)),
    };
    if wc(1, 5) {
        c.max_buf = None;
        c.exact = Some(pick(&[1_000usize, 4_096, 20_000]));
    }
    let kind = match focus {
        "C17" => ww(&[1, 3, 8]),
        _ => ww(&[2, 8, 1]),
    };
    if kind < 2 {
        let (bytes, eof) = crate::f_h1c::seg_message(method);
        c.wire = bytes;
        c.eof = eof || wc(1, 4);
        if c.exact.is_some_and(|m| m < c.wire.len() + 64) {
            c.exact = None;
        }
        if kind == 1 {
            c.what = "mutated";
            mutate(&mut c.wire, &mut c.marks);
            if !c.eof {
                c.wire.extend_from_slice(b"\r\n\r\n\r\n\r\n");
            }
        }
        return c;
    }
    c.ignore_bad = false;
    // what exact-size buffers make of big reads is theirs
    let mb = c.exact.unwrap_or(c.max_buf.unwrap_or(DEFAULT_BUF));
    let mh = c.max_headers.unwrap_or(100);
    let mut start = 0;
    if wc(1, 4) {
        c.wire.extend_from_slice(b"HTTP/1.1 103 Hints\r\nlink: a\r\n\r\n");
        start = c.wire.len();
    }
    match ww(&[3, 3, 2, 2, 2, 1, 1]) {
        0 => {
            c.what = "head-size";
            let len = around(mb, 600).max(60);
            c.verdict = match len {
                l if l <= mb => Verdict::Accept,
                l if l <= 2 * mb + 65_536 => Verdict::Ahead,
                _ => Verdict::Head { status: 0, at: 0 },
            };
            c.wire.extend(sized_head("HTTP/1.1 200 OK", "content-length: 0\r\n", len));
            c.marks.extend([start + mb.min(len) - 1, start + mb.min(len)]);
            c.bound = start + 2 * mb + 65_536;
            c.body = Some((vec![], 0));
        }
        1 => {
            c.what = "header-count";
            let n = match ww(&[3, 3, 1]) {
                0 => mh - wd(2) as usize,
                1 => mh + wr(1, 2) as usize,
                _ => mh + wr(1, 200) as usize,
            };
            c.verdict = if n <= mh { Verdict::Accept } else { Verdict::Head { status: 0, at: 0 } };
            c.wire.extend_from_slice(b"HTTP/1.1 200 OK\r\ncontent-length: 0\r\n");
            for i in 1..n {
                if i + 2 > mh {
                    c.marks.push(c.wire.len());
                }
                c.wire.extend_from_slice(format!("x{i}: v\r\n").as_bytes());
            }
            c.wire.extend_from_slice(b"\r\n");
            if c.wire.len() - start > mb {
                c.verdict = if n <= mh { Verdict::Ahead } else { c.verdict };
            }
            c.body = Some((vec![], 0));
        }
        k @ (2 | 3 | 4) => {
            c.what = ["ext-size", "trailer-count", "trailer-size"][k - 2];
            if k == 3 {
                c.max_headers = pick(&[None, Some(30), Some(200), Some(5)]);
            }
            let mh = c.max_headers.unwrap_or(100);
            let (b, data, nt, v, marks) = limit_body(k as u32 - 2, mh);
            c.wire.extend_from_slice(b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n");
            let s = c.wire.len();
            c.marks.extend(marks.iter().map(|m| s + m));
            c.wire.extend(b);
            c.verdict = v;
            c.body = Some((data, nt));
        }
        5 => {
            c.what = "endless-head";
            c.verdict = Verdict::Head { status: 0, at: 0 };
            c.wire.extend_from_slice(pick(&[&b"HTTP/1.1 200 OK\r\nx: "[..], b"HTTP/1.1 200 O", b"HTTP/1.1 200 OK\r\nhost: a\r\n"]));
            let l = 3 * mb + 200_000;
            if c.wire.ends_with(b"\n") {
                while c.wire.len() < start + l {
                    c.wire.extend_from_slice(b"y: vvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvvv\r\n");
                }
            } else {
                c.wire.extend(std::iter::repeat(b'A').take(l));
            }
            c.bound = start + 2 * mb + 65_536;
        }
        _ => {
            c.what = "endless-body-meta";
            c.verdict = Verdict::Body { at: 0 };
            c.wire.extend_from_slice(b"HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\n\r\n");
            let l = 2 * mb + 400_000;
            match wd(3) {
                0 => {
                    c.wire.extend_from_slice(b"3;");
                    c.wire.extend(std::iter::repeat(b'e').take(l));
                }
                1 => {
                    c.wire.extend_from_slice(b"0\r\nt: ");
                    c.wire.extend(std::iter::repeat(b'e').take(l));
                }
                _ => {
                    c.wire.extend_from_slice(b"0\r\n");
                    while c.wire.len() < start + l {
                        c.wire.extend_from_slice(b"t: ffffffffffffffffffffffffffffffff\r\n");
                    }
                }
            }
            c.bound = start + 100_000 + 2 * mb + 65_536;
        }
    }
    c
}

// ---- one replica ---------------------------------------------------------------

fn replica_io(r: usize, big: bool) -> IoKnobs {
    let mut k = if r == 0 { IoKnobs { cap: 8 << 20, ..IoKnobs::default() } } else { draw_io() };
    k.rst_on_drop = false;
    k.linger = true;
    k.buffered = false;
    k.latency = k.latency.min(50_000);
    if big {
        k.cap = k.cap.max(16_384);
        if k.read_mode == 1 {
            k.read_mode = 3;
        }
    }
    k
}
/// Where this replica's stream is cut.
fn draw_cuts(r: usize, c: &Case) -> Vec<usize> {
    let len = c.wire.len();
    if r == 0 || len < 2 {
        return vec![len];
    }
    let mut v = Vec::new();
    for _ in 0..wd(12) {
        v.push(wr(1, len as u32 - 1) as usize);
    }
    for m in &c.marks {
        if v.len() > 60 {
            break;
        }
        if wc(1, 3) {
            let d = wd(7) as i64 - 3;
            v.push((*m as i64 + d).clamp(1, len as i64 - 1) as usize);
        }
    }
    if wc(1, 2) {
        // the last bytes one by one
        for k in 1..=6 {
            v.push(len.saturating_sub(k).max(1));
        }
    }
    if wc(1, 3) {
        let a = wd(len as u32) as usize;
        for k in a..(a + 12).min(len) {
            v.push(k.max(1));
        }
    }
    v.push(len);
    v.sort();
    v.dedup();
    v
}
async fn feed(sock: Rc<Sock>, wire: Rc<Vec<u8>>, cuts: Vec<usize>, gaps: Vec<u64>, eof: bool) {
    let mut p = 0;
    for (c, g) in cuts.iter().zip(gaps) {
        if g > 0 {
            sleep(g).await;
        }
        if sock.write_all(&wire[p..*c]).await.is_err() {
            return;
        }
        p = *c;
    }
    if eof {
        let _ = sock.shutdown().await;
    }
}
async fn read_body(body: hyper::body::Incoming, st: SeenRef, i: usize) -> bool {
    let mut cb = CheckedBody::new(body, format!("msg{i}"));
    let log = cb.log.clone();
    loop {
        let more = cb.frame().await;
        let l = log.borrow();
        let mut s = st.borrow_mut();
        let m = &mut s.msgs[i];
        m.data = l.data.clone();
        m.trailers = l.trailers.as_ref().map(h1ref::hmap_http);
        match more {
            None => {
                m.end = 1;
                return true;
            }
            Some(Err(_)) => {
                m.end = 2;
                return false;
            }
            Some(Ok(_)) => {}
        }
    }
}

fn start_server(r: usize, c: &Case, wire: &Rc<Vec<u8>>) -> (SeenRef, usize) {
    let st: SeenRef = Rc::default();
    let big = wire.len() > 30_000;
    let (cs, ss) = connect("seg", replica_io(r, big), replica_io(r, big));
    let conn = cs.conn;
    with(|w| w.net.conns[conn].watch[0] = false);
    let s2 = st.clone();
    let svc = hyper::service::service_fn(move |req: http::Request<hyper::body::Incoming>| {
        let st = s2.clone();
        async move {
            let (p, b) = req.into_parts();
            let head = p.method == "HEAD";
            let i = st.borrow().msgs.len();
            tr(|| format!("  replica {r}: {} {} {:?}", p.method, shorten(p.uri.to_string().as_bytes()), p.version));
            st.borrow_mut().msgs.push(MsgSeen { start: format!("{} {} {:?}", p.method, p.uri, p.version), hdrs: h1ref::hmap_http(&p.headers), ..Default::default() });
            let connect = p.method == "CONNECT";
            if !read_body(b, st, i).await {
                return Err(SimErr("request body"));
            }
            let mut resp = http::Response::new(if head { BodySpec::empty().build("r") } else { BodySpec { steps: vec![Step::Data(bytes::Bytes::from_static(b"answer"), 1)], hint: Hint::Exact, eos: true }.build("r") });
            if connect {
                *resp.status_mut() = http::StatusCode::NOT_FOUND;
            }
            Ok(resp)
        }
    });
    let mut b = hyper::server::conn::http1::Builder::new();
    b.half_close(true).auto_date_header(false).ignore_invalid_headers(c.ignore_bad);
    if let Some(m) = c.max_buf {
        b.max_buf_size(m);
    }
    if let Some(m) = c.max_headers {
        b.max_headers(m);
    }
    let fut = b.serve_connection(ss, svc);
    let s2 = st.clone();
    spawn_in(4, "server", async move {
        let res = fut.await;
        tr(|| format!("  replica {r}: result {res:?}"));
        s2.borrow_mut().result = Some(res.map_err(|e| (flags(&e).too_large, format!("{e:?}"))));
    });
    let sock = Rc::new(cs);
    let cuts = draw_cuts(r, c);
    let gaps: Vec<u64> = cuts.iter().map(|_| if r == 0 || wc(1, 3) { 0 } else { wr(1, 60) as u64 * 1000 }).collect();
    tr(|| format!("  replica {r}: cuts {:?}", cuts));
    spawn_in(8, "feeder", feed(sock.clone(), wire.clone(), cuts, gaps, c.eof));
    let s2 = st.clone();
    spawn_in(8, "client-reader", async move {
        while let Ok(v) = sock.read(8192).await {
            if v.is_empty() {
                break;
            }
            s2.borrow_mut().out.extend(v);
        }
    });
    (st, conn)
}

fn start_client(r: usize, c: &Case, wire: &Rc<Vec<u8>>, method: &'static str) -> (SeenRef, usize) {
    let st: SeenRef = Rc::default();
    let big = wire.len() > 30_000;
    let (cs, ss) = connect("seg", replica_io(r, big), replica_io(r, big));
    let conn = cs.conn;
    with(|w| w.net.conns[conn].watch[1] = false);
    let mut b = hyper::client::conn::http1::Builder::new();
    b.ignore_invalid_headers_in_responses(c.ignore_bad).allow_spaces_after_header_name_in_responses(c.lenient.0).allow_obsolete_multiline_headers_in_responses(c.lenient.1);
    if let Some(m) = c.max_buf {
        b.max_buf_size(m);
    }
    if let Some(m) = c.exact {
        b.read_buf_exact_size(Some(m));
    }
    if let Some(m) = c.max_headers {
        b.max_headers(m);
    }
    let s2 = st.clone();
    let cuts = draw_cuts(r, c);
    let gaps: Vec<u64> = cuts.iter().map(|_| if r == 0 || wc(1, 3) { 0 } else { wr(1, 60) as u64 * 1000 }).collect();
    tr(|| format!("  replica {r}: cuts {:?}", cuts));
    spawn_in(2, "caller", async move {
        let (mut tx, cn) = match b.handshake::<_, SimBody>(cs).await {
            Ok(x) => x,
            Err(e) => {
                violate("handshake", format!("{e:?}"));
                return;
            }
        };
        let s3 = s2.clone();
        spawn_in(1, "client", async move {
            let res = cn.await;
            tr(|| format!("  replica {r}: conn {res:?}"));
            s3.borrow_mut().result = Some(res.map_err(|e| (flags(&e).too_large, format!("{e:?}"))));
        });
        let target = if method == "CONNECT" { "example.com:443" } else { "/x" };
        let mut req = http::Request::builder().method(method).uri(target).header("host", "a").body(BodySpec::empty().build("q")).unwrap();
        hyper::ext::on_informational(&mut req, move |resp| {
            // has to be Send + Sync: index based
            INFORMS.with(|v| v.borrow_mut().push((r, resp.status().as_u16(), h1ref::hmap_http(resp.headers()))));
        });
        match tx.send_request(req).await {
            Ok(resp) => {
                let (p, b) = resp.into_parts();
                tr(|| format!("  replica {r}: {} {:?}", p.status, p.version));
                let reason = p.extensions.get::<hyper::ext::ReasonPhrase>().map(|x| x.as_bytes().to_vec());
                s2.borrow_mut().msgs.push(MsgSeen { start: format!("{} {:?} {reason:?}", p.status, p.version), hdrs: h1ref::hmap_http(&p.headers), ..Default::default() });
                read_body(b, s2.clone(), 0).await;
            }
            Err(e) => {
                tr(|| format!("  replica {r}: {e:?}"));
                s2.borrow_mut().failed = Some((flags(&e).too_large, format!("{e:?}")));
            }
        }
        drop(tx);
    });
    let sock = Rc::new(ss);
    let (wire, eof) = (wire.clone(), c.eof);
    spawn_in(8, "server", async move {
        let mut got = Vec::new();
        loop {
            match sock.read(8192).await {
                Ok(v) if !v.is_empty() => got.extend(v),
                _ => return,
            }
            if got.ends_with(b"\r\n\r\n") {
                break;
            }
        }
        let s2 = sock.clone();
        spawn_in(8, "feeder", feed(s2, wire, cuts, gaps, eof));
        while let Ok(v) = sock.read(8192).await {
            if v.is_empty() {
                break;
            }
        }
        let _ = sock.shutdown().await;
    });
    (st, conn)
}

// ---- the family ----------------------------------------------------------------

pub fn run_family(focus: &'static str) {
    let mut kn = draw_knobs();
    kn.poll_cost = kn.poll_cost.min(2_000);
    with(|w| w.knobs = kn);
    let server = match focus {
        "C01" => true,
        "C02" => false,
        _ => wc(1, 2),
    };
    let method = pick(&["GET", "GET", "GET", "HEAD", "POST", "CONNECT"]);
    let mut c = if server { server_case(focus) } else { client_case(focus, method) };
    let method = if matches!(c.verdict, Verdict::Any) { method } else { "GET" };
    tr(|| format!("seg {} {} method {method} {} bytes eof={} verdict {:?} max_buf {:?} exact {:?} max_headers {:?} ignore {}", if server { "server" } else { "client" }, c.what, c.wire.len(), c.eof, c.verdict, c.max_buf, c.exact, c.max_headers, c.ignore_bad));
    tr(|| format!("  stream: {}", String::from_utf8_lossy(&c.wire[..c.wire.len().min(3000)]).escape_debug()));
    note_bytes(&c.wire[..c.wire.len().min(4096)]);
    if matches!(c.verdict, Verdict::Any) && c.wire.len() > 8192 {
        // heads are far below every limit here
        c.max_buf = None;
        c.exact = None;
    }
    count(c.what);
    INFORMS.with(|v| v.borrow_mut().clear());
    let wire = Rc::new(c.wire.clone());
    let reps: Vec<(SeenRef, usize)> = (0..K).map(|r| if server { start_server(r, &c, &wire) } else { start_client(r, &c, &wire, method) }).collect();
    match run(Limits { max_steps: 3_000_000, horizon: 3_600 * SEC }, || false) {
        End::Violation => return,
        End::Steps => {
            violate("livelock", "step limit reached".into());
            return;
        }
        _ => {}
    }
    let mut seen: Vec<Seen> = reps.iter().map(|x| x.0.borrow().clone()).collect();
    for (r, st, h) in INFORMS.with(|v| std::mem::take(&mut *v.borrow_mut())) {
        seen[r].informs.push((st, h));
    }
    for s in &seen {
        add("messages", s.msgs.len() as u64);
    }
    for r in 0..K {
        judge_one(r, &c, &seen[r], reps[r].1, server);
        if violated() {
            return;
        }
    }
    if c.verdict == Verdict::Ahead {
        return;
    }
    for r in 1..K {
        compare(r, &seen[0], &seen[r], server);
        if violated() {
            return;
        }
    }
}

fn judge_one(r: usize, c: &Case, s: &Seen, conn: usize, server: bool) {
    let d = if server { 0 } else { 1 };
    let read = net::dir(conn, d, |x| x.read_total) as usize;
    let show = || {
        format!(
            "replica {r} ({}): expected {:?}, got {} message(s) {:?}, response {}, request {:?}, connection {:?}",
            c.what,
            c.verdict,
            s.msgs.len(),
            s.msgs.iter().map(|m| (shorten(m.start.as_bytes()), m.hdrs.len(), m.data.len(), m.end)).collect::<Vec<_>>(),
            shorten(&s.out),
            s.failed,
            s.result
        )
    };
    if read > c.bound && !matches!(c.verdict, Verdict::Accept | Verdict::Any | Verdict::Either | Verdict::Ahead) {
        violate("read-past-limit", format!("replica {r} ({}): {read} bytes read of a stream refused within {}", c.what, c.bound));
        return;
    }
    match &c.verdict {
        Verdict::Any | Verdict::Either | Verdict::Ahead => {}
        Verdict::Accept => {
            count("accepted_at_limit");
            let i = if server { c.wire_index() } else { 0 };
            let ok = s.msgs.len() == c.n && s.msgs.iter().all(|m| m.end == 1) && s.failed.is_none();
            if !ok {
                violate("limit-refused", show());
                return;
            }
            if let Some((d, nt)) = &c.body {
                let m = &s.msgs[i];
                if &m.data != d || m.trailers.as_ref().map_or(0, |t| t.values().map(|v| v.len()).sum::<usize>()) != *nt {
                    violate("limit-content", show());
                }
            }
        }
        Verdict::Head { status, at } => {
            count("refused_over_limit");
            if s.msgs.len() > *at {
                violate("limit-exceeded", show());
                return;
            }
            if server {
                if !matches!(s.result, Some(Err(_))) || s.msgs.len() != *at {
                    violate("limit-not-refused", show());
                    return;
                }
                let mut pos = 0;
                let mut last = 0;
                for _ in 0..=*at {
                    match h1ref::parse_response(&s.out, pos, "GET", true) {
                        Ok(m) if m.complete => {
                            pos = m.end;
                            last = m.status();
                        }
                        x => {
                            violate("refusal-status", format!("{} {:?}", show(), x.err()));
                            return;
                        }
                    }
                }
                if last != *status || pos != s.out.len() {
                    violate("refusal-status", format!("{}; wanted {status}, got {last}", show()));
                }
            } else if s.failed.is_none() {
                violate("limit-not-refused", show());
            }
        }
        Verdict::Body { at } => {
            count("refused_over_limit");
            if s.msgs.len() != *at + 1 || s.msgs[*at].end != 2 || (server && !matches!(s.result, Some(Err(_)))) {
                violate("limit-not-refused", show());
            }
        }
    }
}
impl Case {
    fn wire_index(&self) -> usize {
        // the judged message is the last but "after"
        if self.wire.windows(11).rev().take(60).any(|w| w == b"GET /after ") {
            self.n - 2
        } else {
            self.n - 1
        }
    }
}

fn compare(r: usize, a: &Seen, b: &Seen, server: bool) {
    // 0 ended well, 1 with an error, 2 still open
    let class = |s: &Seen| match (&s.failed, &s.result) {
        (Some(_), _) => 1,
        (None, Some(Err(_))) if server => 1,
        (None, Some(_)) => 0,
        (None, None) => 2,
    };
    let (x, y) = (class(a), class(b));
    let show = |what: &str, u: String, v: String| format!("the same bytes under another segmentation: {what}: replica 0 {u} / replica {r} {v}; results {:?} {:?} / {:?} {:?}", a.failed, a.result, b.failed, b.result);
    if a.informs != b.informs {
        violate("split-changes-interim", show("interim responses", format!("{:?}", a.informs.iter().map(|x| x.0).collect::<Vec<_>>()), format!("{:?}", b.informs.iter().map(|x| x.0).collect::<Vec<_>>())));
        return;
    }
    if a.msgs.len() != b.msgs.len() {
        let l = |s: &Seen| format!("{:?}", s.msgs.iter().map(|m| shorten(m.start.as_bytes())).collect::<Vec<_>>());
        violate("split-changes-messages", show("messages", l(a), l(b)));
        return;
    }
    for (i, (m, n)) in a.msgs.iter().zip(&b.msgs).enumerate() {
        if m.start != n.start || m.hdrs != n.hdrs {
            violate("split-changes-head", show(&format!("head {i}"), format!("{} {}", shorten(m.start.as_bytes()), show_hmap(&m.hdrs)), format!("{} {}", shorten(n.start.as_bytes()), show_hmap(&n.hdrs))));
            return;
        }
        if m.end != n.end || m.data != n.data && m.end != 2 || m.trailers != n.trailers {
            violate("split-changes-body", show(&format!("body {i}"), format!("end {} {}", m.end, shorten(&m.data)), format!("end {} {}", n.end, shorten(&n.data))));
            return;
        }
        if m.end == 2 && m.data != n.data && !m.data.starts_with(&n.data) && !n.data.starts_with(&m.data) {
            violate("split-changes-body", show(&format!("body {i}"), shorten(&m.data), shorten(&n.data)));
            return;
        }
    }
    let same = x == y;
    if !same {
        violate("split-changes-outcome", show("outcome", x.to_string(), y.to_string()));
        return;
    }
    if server {
        let ok = if x == 1 { a.out.starts_with(&b.out) || b.out.starts_with(&a.out) } else { a.out == b.out };
        if !ok {
            violate("split-changes-response", show("response", shorten(&a.out), shorten(&b.out)));
        }
    }
}
