//! Families tmo and date: a real hyper server whose clock is simulated.
//! tmo places request heads before, close to and after the deadline of the
//! HTTP/1 header read timeout (C11); date compares the Date of every response
//! with the simulated wall clock (C19).
use crate::body::*;
use crate::core::*;
use crate::f_h1s::flags;
use crate::gen::*;
use crate::h1ref::{self};
use crate::net::{self, *};
use crate::{clock, util};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::time::Duration;

const MS: u64 = 1_000_000;
const S: u64 = 1_000 * MS;

fn quiet_io() -> IoKnobs {
    let mut k = draw_io();
    k.latency = pick(&[0, 0, 50_000, MS]);
    k.cap = pick(&[1 << 20, 1 << 20, 16_384, 4_096, 1_024]);
    k.rst_on_drop = false;
    k.linger = true;
    k
}
fn calm_knobs() {
    let mut k = draw_knobs();
    k.poll_cost = k.poll_cost.min(2_000);
    with(|w| w.knobs = k);
}

// ---- tmo -----------------------------------------------------------------------

#[derive(Clone, Debug)]
struct TReq {
    head: Vec<u8>,
    /// (pause before, bytes)
    pieces: Vec<(u64, usize)>,
    body: Vec<(u64, Vec<u8>)>,
    data: Vec<u8>,
    /// the head is never completed
    never: bool,
    aside: bool,
    delay: u64,
    read_gap: u64,
    resp: BodySpec,
    closes: bool,
}
#[derive(Default)]
struct TState {
    /// when the last byte of each head was accepted
    head_at: Vec<Option<u64>>,
    /// when the last byte of each body was accepted
    body_at: Vec<Option<u64>>,
    /// when the service had read it
    read_at: Vec<Option<u64>>,
    calls: Vec<(usize, u64)>,
    out: Vec<u8>,
    responses: usize,
    closed_at: Option<u64>,
    result: Option<(Result<(), (bool, String)>, u64)>,
}

fn gap_kind(t: u64) -> u64 {
    match ww(&[6, 3, 3]) {
        0 => wr(0, 300) as u64 * t / 1000,
        1 => wr(800, 940) as u64 * t / 1000,
        _ => wr(0, 50) as u64 * MS,
    }
}
fn slow(t: u64) -> u64 {
    match ww(&[5, 2, 3]) {
        0 => 0,
        1 => wr(0, 20) as u64 * MS,
        _ => wr(100, 5000) as u64 * t / 1000,
    }
}

pub fn tmo(_focus: &'static str) {
    calm_knobs();
    let mode = ww(&[8, 3, 1, 1]);
    let t = match mode {
        0 => pick(&[500 * MS, S, 3 * S, 30 * S, 120 * S]),
        _ => 30 * S,
    };
    let limit = if mode < 2 { Some(t) } else { None };
    let n = wr(1, 5) as usize;
    let pipelined = wc(1, 4);
    let keep_alive = !wc(1, 12);
    let (mut k0, k1) = (quiet_io(), quiet_io());
    k0.buffered = false;
    let (cs, ss) = connect("tmo", k0, k1);
    let conn = cs.conn;
    net::dir(conn, 1, |d| d.log_writes = true);
    let mut reqs = Vec::new();
    for i in 0..n {
        let post = wc(1, 2);
        let data = if post { content(i as u32, wr(0, 3000) as usize) } else { vec![] };
        let chunked = post && wc(1, 2);
        let closes = wc(1, 12);
        let mut head = Vec::new();
        if wc(1, 8) {
            head.extend_from_slice(b"\r\n");
        }
        head.extend_from_slice(format!("{} /r{i} HTTP/1.1\r\nhost: a\r\n", if post { "POST" } else { "GET" }).as_bytes());
        for (k, v) in plain_headers(4) {
            head.extend_from_slice(format!("{k}: ").as_bytes());
            head.extend_from_slice(&v);
            head.extend_from_slice(b"\r\n");
        }
        if closes {
            head.extend_from_slice(b"connection: close\r\n");
        }
        let mut wire = Vec::new();
        if chunked {
            head.extend_from_slice(b"transfer-encoding: chunked\r\n");
            write_chunked(&mut wire, &data, &vec![]);
        } else if post {
            head.extend_from_slice(format!("content-length: {}\r\n", data.len()).as_bytes());
            wire = data.clone();
        }
        head.extend_from_slice(b"\r\n");
        let never = wc(1, 8);
        let len = if never { wd(head.len() as u32) as usize } else { head.len() };
        // how late the head is complete
        let total = if never {
            slow(t)
        } else {
            match ww(&[5, 3, 3, 2]) {
                0 => wr(0, 300) as u64 * t / 1000,
                1 => wr(750, 940) as u64 * t / 1000,
                2 => wr(1060, 1500) as u64 * t / 1000,
                _ => 0,
            }
        };
        let np = (wr(1, 6) as usize).min(len.max(1));
        let mut cuts: Vec<usize> = (1..np).map(|_| wr(1, len as u32) as usize).collect();
        if wc(1, 4) && len > 1 {
            cuts.push(len - 1);
        }
        cuts.push(len);
        cuts.sort();
        cuts.dedup();
        let mut at: Vec<u64> = (1..cuts.len()).map(|_| if wc(1, 4) { 0 } else { wr(0, 1000) as u64 * total / 1000 }).collect();
        at.push(total);
        at.sort();
        let (mut p, mut q) = (0, 0);
        let pieces = cuts
            .iter()
            .zip(&at)
            .map(|(c, a)| {
                let x = (a - q, c - p);
                p = *c;
                q = *a;
                x
            })
            .collect();
        let mut body = Vec::new();
        let mut j = 0;
        while j < wire.len() {
            let m = (wr(1, 1500) as usize).min(wire.len() - j);
            body.push((slow(t), wire[j..j + m].to_vec()));
            j += m;
        }
        let rd = content(100 + i as u32, if wc(1, 3) { wr(0, 60_000) as usize } else { wr(0, 300) as usize });
        let mut steps = Vec::new();
        let mut j = 0;
        while j < rd.len() {
            if wc(1, 3) {
                steps.push(Step::Pend(slow(t).max(1)));
            }
            let m = (wr(1, 20_000) as usize).min(rd.len() - j);
            steps.push(Step::Data(bytes::Bytes::copy_from_slice(&rd[j..j + m]), 1));
            j += m;
        }
        if wc(1, 4) {
            steps.push(Step::Pend(slow(t).max(1)));
        }
        reqs.push(TReq {
            head,
            pieces,
            body,
            data,
            never,
            aside: wc(1, 3),
            delay: slow(t),
            read_gap: slow(t),
            resp: BodySpec { steps, hint: pick(&[Hint::Exact, Hint::Unknown]), eos: wc(1, 2) },
            closes,
        });
        if never {
            break;
        }
    }
    let n = reqs.len();
    // what the client does in the end: 0 nothing, 1 close
    let closing: Option<u64> = if reqs[n - 1].never && wc(1, 3) || !reqs[n - 1].never && wc(1, 3) { Some(gap_kind(t) + if wc(1, 3) { t } else { 0 }) } else { None };
    // what the client waits before reading each response
    let pauses: Vec<u64> = (0..n).map(|_| if wc(1, 4) { slow(t) } else { 0 }).collect();
    tr(|| format!("tmo mode {mode} T={}ms n={n} pipelined={pipelined} ka={keep_alive} closing={closing:?} pauses={pauses:?}", t / MS));
    for (i, r) in reqs.iter().enumerate() {
        tr(|| format!("  r{i}: head {} {:?} body {:?} never={} aside={} delay={} gap={} resp={:?} closes={}", r.head.len(), r.pieces, r.body.iter().map(|x| (x.0, x.1.len())).collect::<Vec<_>>(), r.never, r.aside, r.delay, r.read_gap, r.resp, r.closes));
    }
    let st = Rc::new(RefCell::new(TState::default()));
    {
        let mut s = st.borrow_mut();
        s.head_at = vec![None; n];
        s.body_at = vec![None; n];
        s.read_at = vec![None; n];
    }
    let reqs = Rc::new(reqs);

    let (rq, s2) = (reqs.clone(), st.clone());
    let svc = hyper::service::service_fn(move |req: http::Request<hyper::body::Incoming>| {
        let (rq, st) = (rq.clone(), s2.clone());
        let fut = async move {
            let i = crate::f_h2p::path_index(req.uri().path());
            tr(|| format!("  service called for {i}"));
            st.borrow_mut().calls.push((i, now()));
            let Some(p) = rq.get(i).cloned() else {
                violate("unknown-request", format!("service got {}", req.uri()));
                return Err(SimErr("unknown"));
            };
            let mut cb = CheckedBody::new(req.into_body(), format!("req{i}"));
            let st2 = st.clone();
            let data = p.data.clone();
            let gap = p.read_gap;
            let rd = async move {
                sleep(gap).await;
                cb.read_all().await;
                let l = cb.log.borrow();
                if !l.clean() || l.data != data {
                    if st2.borrow().closed_at.is_none() {
                        violate("slow-body", format!("request body {i} ended {:?} after {} of {} bytes", l.end, l.data.len(), data.len()));
                    }
                    return;
                }
                st2.borrow_mut().read_at[i] = Some(now());
            };
            if p.aside {
                spawn_in(7, "reader", rd);
            } else {
                rd.await;
            }
            sleep(p.delay).await;
            Ok(http::Response::new(p.resp.build(format!("resp{i}"))))
        };
        Box::pin(fut) as std::pin::Pin<Box<dyn std::future::Future<Output = _>>>
    });
    let mut b = hyper::server::conn::http1::Builder::new();
    b.half_close(wc(1, 3)).keep_alive(keep_alive);
    match mode {
        0 => {
            b.timer(SimTimer).header_read_timeout(Duration::from_nanos(t));
        }
        1 => {
            b.timer(SimTimer);
        }
        2 => {
            b.timer(SimTimer).header_read_timeout(None);
        }
        _ => {}
    }
    let c = b.serve_connection(ss, svc);
    let s2 = st.clone();
    let upg = wc(1, 4);
    spawn_in(4, "server", async move {
        let r = if upg { c.with_upgrades().await } else { c.await };
        tr(|| format!("  server result {r:?}"));
        s2.borrow_mut().result = Some((r.map_err(|e| (flags(&e).timeout, format!("{e:?}"))), now()));
    });

    // the raw client
    let cs = Rc::new(cs);
    let got = Rc::new(RefCell::new(Vec::<Gate>::new()));
    for _ in 0..n {
        got.borrow_mut().push(Gate::new());
    }
    let (s2, sock, gates, rq) = (st.clone(), cs.clone(), got.clone(), reqs.clone());
    spawn_in(8, "client-reader", async move {
        let mut pos = 0;
        let mut k = 0;
        let mut paused = false;
        loop {
            if k < pauses.len() && !paused {
                paused = true;
                let p = pauses[k];
                if p > 0 {
                    // not before its request is away
                    sleep(p).await;
                    count("reader_pauses");
                }
            }
            match sock.read(8192).await {
                Ok(v) if !v.is_empty() => s2.borrow_mut().out.extend(v),
                _ => break,
            }
            loop {
                let out = s2.borrow().out.clone();
                if pos == out.len() || k >= rq.len() {
                    break;
                }
                match h1ref::parse_response(&out, pos, "GET", false) {
                    Ok(m) if m.complete => {
                        pos = m.end;
                        tr(|| format!("  response {k} read"));
                        gates.borrow()[k].open();
                        k += 1;
                        s2.borrow_mut().responses = k;
                        paused = false;
                    }
                    Ok(_) => break,
                    Err(e) => {
                        violate("garbled-response", e);
                        return;
                    }
                }
            }
        }
        for g in gates.borrow().iter() {
            g.open();
        }
    });
    let (s2, sock, gates, rq) = (st.clone(), cs.clone(), got, reqs.clone());
    spawn_in(8, "client-writer", async move {
        for (i, r) in rq.iter().enumerate() {
            if i > 0 && !pipelined {
                gates.borrow()[i - 1].wait().await;
            }
            let mut p = 0;
            for (gap, len) in &r.pieces {
                sleep(*gap).await;
                if sock.write_all(&r.head[p..p + len]).await.is_err() {
                    return;
                }
                p += len;
            }
            if r.never {
                break;
            }
            tr(|| format!("  head {i} written"));
            s2.borrow_mut().head_at[i] = Some(now());
            for (gap, d) in &r.body {
                sleep(*gap).await;
                if sock.write_all(d).await.is_err() {
                    return;
                }
            }
            s2.borrow_mut().body_at[i] = Some(now());
        }
        if let Some(d) = closing {
            if !rq[rq.len() - 1].never {
                gates.borrow()[rq.len() - 1].wait().await;
            }
            sleep(d).await;
            let _ = sock.shutdown().await;
            tr(|| "  client closes".into());
            s2.borrow_mut().closed_at = Some(now());
        }
    });
    let end = run(Limits { max_steps: 400_000, horizon: 100_000 * S }, || false);
    if end == End::Violation {
        return;
    }
    if end == End::Steps {
        violate("livelock", "step limit reached".into());
        return;
    }
    judge_tmo(&st.borrow(), &reqs, limit, conn, keep_alive, pipelined);
}

fn judge_tmo(s: &TState, reqs: &[TReq], limit: Option<u64>, conn: usize, keep_alive: bool, _pipelined: bool) {
    let slack = 60 * MS;
    let (log, written) = net::dir(conn, 1, |d| (d.write_log.clone(), d.written.clone()));
    let at = |off: usize| log.iter().find(|x| x.1 >= off).map(|x| x.0);
    let timed_out = matches!(&s.result, Some((Err((true, _)), _)));
    let t_end = s.result.as_ref().map(|r| r.1);
    let calls = s.calls.len();
    for (k, c) in s.calls.iter().enumerate() {
        if c.0 != k {
            violate("call-order", format!("calls {:?}", s.calls));
            return;
        }
    }
    let Some(t) = limit else {
        count("no_timeout_configured");
        if timed_out {
            violate("timeout-unasked", format!("no timeout configured, but the connection ended with {:?}", s.result));
        }
        return;
    };
    let mut pos = 0;
    let (mut lo, mut hi) = (0u64, 0u64);
    let mut k = 0;
    loop {
        // waiting for head k from somewhere in lo..=hi
        let h = reqs.get(k).and_then(|_| s.head_at[k]);
        let show = || format!("head {k}: server waited from {}..{} us, limit {} us, head complete at {:?}, closed {:?}, result {:?} calls {calls}", lo / 1000, hi / 1000, t / 1000, h.map(|x| x / 1000), s.closed_at.map(|x| x / 1000), s.result);
        match h {
            Some(h) if h + slack < lo + t => {
                count("heads_in_time");
                if h > lo + t * 3 / 4 {
                    count("heads_close_to_deadline");
                }
                if calls <= k && s.closed_at.is_some() && !timed_out {
                    // the client ended the connection before its turn came
                    return;
                }
                if calls <= k {
                    violate("early-timeout", show());
                    return;
                }
            }
            Some(h) if h <= hi + t + slack => {
                count("heads_at_deadline");
                // either way, but nothing else
                return;
            }
            other => {
                // late, or never
                if let (Some(c), None) = (s.closed_at, other) {
                    if c <= hi + t + slack {
                        if c + slack < lo + t && timed_out {
                            violate("timeout-after-close", show());
                        }
                        return;
                    }
                }
                count(if other.is_some() { "heads_late" } else { "heads_never" });
                if calls > k {
                    violate("served-late-head", show());
                    return;
                }
                if !timed_out {
                    violate("no-timeout", show());
                    return;
                }
                let e = t_end.unwrap();
                if e + MS < lo + t || e > hi + t + slack {
                    violate("timeout-time", format!("ended at {} us; {}", e / 1000, show()));
                }
                return;
            }
        }
        // served: find where its answer ends
        let r = &reqs[k];
        let m = match h1ref::parse_response(&written, pos, "GET", false) {
            Ok(m) if m.complete => m,
            other => {
                if s.closed_at.is_none() {
                    violate("unanswered", format!("request {k}: response is {:?}; {}", other.map(|m| m.complete), show()));
                }
                return;
            }
        };
        pos = m.end;
        let Some(w) = at(pos) else { return };
        if r.closes || !keep_alive {
            if timed_out {
                violate("timeout-after-last", show());
            }
            return;
        }
        let (Some(b_at), Some(r_at)) = (s.body_at[k], s.read_at[k]) else {
            if s.closed_at.is_none() {
                violate("slow-body", format!("request {k} was not read: written {:?} read {:?}; {}", s.body_at[k], s.read_at[k], show()));
            }
            return;
        };
        lo = w.max(if r.data.is_empty() { 0 } else { b_at });
        // (a body with nothing in it is over with its head)
        hi = w.max(r_at);
        k += 1;
    }
}

// ---- date ----------------------------------------------------------------------

#[derive(Clone, Debug)]
struct DReq {
    conn: usize,
    gap: u64,
    /// wall clock steps before the request, and while the service works
    jump: i64,
    delay: u64,
    inner: i64,
    status: u16,
    dates: Vec<&'static str>,
    data: usize,
    method: &'static str,
    minor: u32,
    bad: bool,
}

fn jump() -> i64 {
    let n = match ww(&[10, 2, 2, 1, 1]) {
        0 => return 0,
        1 => wr(1, 2000) as i64 * MS as i64,
        2 => wr(1, 7200) as i64 * S as i64,
        3 => S as i64,
        _ => 400 * 86_400 * S as i64,
    };
    count("clock_jumps");
    if wc(1, 2) {
        -n
    } else {
        n
    }
}

/// Dates of an answer against the clock.
fn judge_date(i: usize, r: &DReq, auto: bool, dates: &[Vec<u8>], done: u64, seen: u64) {
    let show = || dates.iter().map(|d| String::from_utf8_lossy(d).into_owned()).collect::<Vec<_>>();
    if !r.bad && !r.dates.is_empty() {
        count("dates_supplied");
        if dates.iter().map(|d| &d[..]).ne(r.dates.iter().map(|d| d.as_bytes())) {
            violate("date-supplied", format!("request {i}: the service gave {:?}, sent {:?}", r.dates, show()));
        }
        return;
    }
    if !auto {
        count("dates_off");
        if !dates.is_empty() {
            violate("date-disabled", format!("request {i}: {:?}", show()));
        }
        return;
    }
    if dates.len() != 1 {
        violate("date-count", format!("request {i}: {:?}", show()));
        return;
    }
    let Some(d) = util::parse_date(&dates[0]) else {
        violate("date-format", format!("request {i}: {:?}", show()));
        return;
    };
    count("dates_checked");
    let (lo, hi) = (done / S - 1, seen / S);
    if d < lo || d > hi {
        violate("date-clock", format!("request {i}: date {d} ({:?}), the clock was between {} and {} s", show(), done as f64 / 1e9, seen as f64 / 1e9));
    }
}

pub fn date(_focus: &'static str) {
    calm_knobs();
    clock::jump_real(wr(0, 999) as i64 * MS as i64);
    let nc = wr(1, 3) as usize;
    let h2: Vec<bool> = (0..nc).map(|_| wc(1, 3)).collect();
    let auto: Vec<bool> = (0..nc).map(|_| !wc(1, 4)).collect();
    let n = wr(1, 12) as usize;
    let reqs: Vec<DReq> = (0..n)
        .map(|i| {
            let conn = wd(nc as u32) as usize;
            DReq {
                conn,
                gap: match ww(&[4, 3, 3, 3, 1, 1]) {
                    0 => 0,
                    1 => pick(&[10, 400, 998, 999, 1000, 1001, 1500]) * MS,
                    2 => wr(0, 1100) as u64 * MS,
                    // to the edge of a second
                    3 => u64::MAX - wr(0, 4) as u64,
                    4 => 3600 * S,
                    _ => 400 * 86_400 * S,
                },
                jump: jump(),
                delay: pick(&[0, 0, 1, MS, 500 * MS, 3 * S]),
                inner: jump(),
                status: pick(&[200, 200, 204, 304, 404, 500]),
                dates: match ww(&[6, 1, 1, 1]) {
                    0 => vec![],
                    1 => vec!["Thu, 01 Jan 1970 00:00:00 GMT"],
                    2 => vec!["not a date at all"],
                    _ => vec!["Sun, 06 Nov 1994 08:49:37 GMT", "x"],
                },
                data: pick(&[0, 0, 5, 1000]),
                method: pick(&["GET", "GET", "HEAD", "POST"]),
                minor: if wc(1, 6) { 0 } else { 1 },
                bad: !h2[conn] && i == n - 1 && wc(1, 3),
            }
        })
        .collect();
    tr(|| format!("date: h2={h2:?} auto={auto:?} {reqs:#?}"));
    let reqs = Rc::new(reqs);
    let done_at: Rc<RefCell<Vec<u64>>> = Rc::new(RefCell::new(vec![0; n]));
    let svc = {
        let (rq, done) = (reqs.clone(), done_at.clone());
        move || {
            let (rq, done) = (rq.clone(), done.clone());
            hyper::service::service_fn(move |req: http::Request<hyper::body::Incoming>| {
                let (rq, done) = (rq.clone(), done.clone());
                let fut = async move {
                    let i = crate::f_h2p::path_index(req.uri().path());
                    let r = rq[i].clone();
                    let mut cb = CheckedBody::new(req.into_body(), format!("req{i}"));
                    cb.read_all().await;
                    if r.inner != 0 {
                        clock::jump_real(r.inner);
                        sleep(1).await;
                    }
                    if r.delay > 0 {
                        sleep(r.delay).await;
                    }
                    let d = content(i as u32, r.data);
                    let steps = if d.is_empty() || matches!(r.status, 204 | 304) { vec![] } else { vec![Step::Data(d.into(), 1)] };
                    let mut p = http::Response::new(BodySpec { steps, hint: Hint::Exact, eos: true }.build(format!("resp{i}")));
                    *p.status_mut() = http::StatusCode::from_u16(r.status).unwrap();
                    for d in &r.dates {
                        p.headers_mut().append("date", http::HeaderValue::from_static(d));
                    }
                    done.borrow_mut()[i] = clock::real_now();
                    Ok::<_, SimErr>(p)
                };
                Box::pin(fut) as std::pin::Pin<Box<dyn std::future::Future<Output = _>>>
            })
        }
    };
    enum Peer {
        Raw(Sock),
        Handle(Rc<RefCell<Option<crate::f_h2p::Handle>>>, Gate),
    }
    let mut peers = Vec::new();
    for c in 0..nc {
        let (k0, k1) = (quiet_io(), quiet_io());
        let (cs, ss) = connect("date", k0, k1);
        if h2[c] {
            let mut b = hyper::server::conn::http2::Builder::new(SimExec(5, "server-exec"));
            b.timer(SimTimer).auto_date_header(auto[c]);
            let f = b.serve_connection(ss, svc());
            spawn_in(4, "server", async move {
                let _ = f.await;
            });
            let (slot, gate) = (Rc::new(RefCell::new(None)), Gate::new());
            let (s2, g2) = (slot.clone(), gate.clone());
            spawn_in(1, "client", async move {
                let mut b = hyper::client::conn::http2::Builder::new(SimExec(3, "client-exec"));
                b.timer(SimTimer);
                match b.handshake(cs).await {
                    Ok((h, conn)) => {
                        *s2.borrow_mut() = Some(h);
                        g2.open();
                        let _ = conn.await;
                    }
                    Err(e) => violate("handshake", format!("{e:?}")),
                }
            });
            peers.push(Peer::Handle(slot, gate));
        } else {
            let mut b = hyper::server::conn::http1::Builder::new();
            b.auto_date_header(auto[c]);
            if wc(1, 3) {
                b.title_case_headers(true);
            }
            if wc(1, 3) {
                b.preserve_header_case(true);
            }
            if wc(1, 3) {
                b.writev(wc(1, 2));
            }
            let f = b.serve_connection(ss, svc());
            spawn_in(4, "server", async move {
                let _ = f.await;
            });
            peers.push(Peer::Raw(cs));
        }
    }
    let ok = Rc::new(Cell::new(0));
    let (ok2, done, rq, au) = (ok.clone(), done_at, reqs.clone(), auto);
    spawn_in(8, "driver", async move {
        let mut dead = vec![false; nc];
        for (i, r) in rq.iter().enumerate() {
            let gap = if r.gap > u64::MAX / 2 { (2 * S - clock::real_now() % S) - 1_000_000 + [0, 999_999, 1_000_000, 1_000_001, 2_000_000][(u64::MAX - r.gap) as usize].max(1) } else { r.gap };
            if gap > 0 {
                sleep(gap).await;
            }
            if r.jump != 0 {
                clock::jump_real(r.jump);
                sleep(1).await;
            }
            if dead[r.conn] {
                ok2.set(ok2.get() + 1);
                continue;
            }
            match &peers[r.conn] {
                Peer::Raw(sock) => {
                    let start = clock::real_now();
                    let line = if r.bad { format!("{} /r{i} HTTP/1.x\r\n\r\n", r.method) } else { format!("{} /r{i} HTTP/1.{}\r\nhost: a\r\nconnection: keep-alive\r\n{}\r\n", r.method, r.minor, if r.method == "POST" { "content-length: 0\r\n" } else { "" }) };
                    if sock.write_all(line.as_bytes()).await.is_err() {
                        violate("date-exchange", format!("request {i} could not be written"));
                        return;
                    }
                    let mut buf = Vec::new();
                    loop {
                        match sock.read(4096).await {
                            Ok(v) if !v.is_empty() => buf.extend(v),
                            e => {
                                violate("date-exchange", format!("request {i}: {e:?} after {}", shorten(&buf)));
                                return;
                            }
                        }
                        match h1ref::parse_response(&buf, 0, r.method, false) {
                            Ok(m) if m.complete => {
                                let dates = h1ref::hmap(&m.hdrs).get("date").cloned().unwrap_or_default();
                                let d = if r.bad { start } else { done.borrow()[i] };
                                judge_date(i, r, au[r.conn], &dates, d, clock::real_now());
                                dead[r.conn] = r.bad;
                                break;
                            }
                            Ok(_) => {}
                            Err(e) => {
                                violate("date-exchange", format!("request {i}: {e} in {}", shorten(&buf)));
                                return;
                            }
                        }
                    }
                }
                Peer::Handle(slot, gate) => {
                    gate.wait().await;
                    let mut h = slot.borrow_mut().take().unwrap();
                    let mut q = http::Request::new(BodySpec::empty().build(format!("req{i}")));
                    *q.method_mut() = r.method.parse().unwrap();
                    *q.uri_mut() = format!("http://a/r{i}").parse().unwrap();
                    if let Err(e) = h.ready().await {
                        violate("date-exchange", format!("request {i}: {e:?}"));
                        return;
                    }
                    match h.send_request(q).await {
                        Ok(p) => {
                            let seen = clock::real_now();
                            let dates: Vec<Vec<u8>> = p.headers().get_all("date").iter().map(|d| d.as_bytes().to_vec()).collect();
                            judge_date(i, r, au[r.conn], &dates, done.borrow()[i], seen);
                            let mut cb = CheckedBody::new_h2(p.into_body(), format!("resp{i}"));
                            cb.read_all().await;
                        }
                        Err(e) => {
                            violate("date-exchange", format!("request {i}: {e:?}"));
                            return;
                        }
                    }
                    *slot.borrow_mut() = Some(h);
                }
            }
            ok2.set(ok2.get() + 1);
        }
    });
    let end = run(Limits { max_steps: 400_000, horizon: u64::MAX / 4 }, || ok.get() == n);
    if end == End::Done || violated() {
        return;
    }
    violate("date-exchange", format!("only {} of {n} exchanges ended ({end:?})", ok.get()));
}
