//! Family h2s: a real hyper HTTP/2 server under a raw client that writes its
//! own frames: valid requests in every framing the protocol allows, malformed
//! and refused ones beside them, cancellations, and violations that end the
//! connection.
use crate::body::*;
use crate::core::*;
use crate::f_h1s::{released, Cmd, Driver};
use crate::f_h2p::{self, check_settings, draw_side, gen_req, gen_resp, server_builder, HReq, HResp, Mode, SRead, Sh, Side};
use crate::gen::*;
use crate::h1ref::*;
use crate::h2raw::*;
use crate::hpack::Field;
use crate::net::{self, *};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Good,
    /// never reaches the service
    BadHead(&'static str),
    /// reaches the service, its body fails
    BadBody(&'static str),
    /// the client resets it
    Cancel { code: u32, after: usize, delay: u64 },
    /// header list beyond the configured size
    Oversize,
}
#[derive(Clone, Debug)]
struct SPlan {
    kind: Kind,
    fields: Vec<Field>,
    req: HReq,
    data: Vec<u8>,
    trailers: Hdrs,
    gap: u64,
    pause: u64,
    noise: bool,
}

fn hdr_fields(h: &HMap) -> Vec<Field> {
    h.iter().flat_map(|(k, vs)| vs.iter().map(move |v| (k.as_bytes().to_vec(), v.clone()))).collect()
}

fn plan(i: usize, focus: &str, max: usize, side: &Side) -> SPlan {
    let mut req = gen_req(i, max, focus, 0);
    let data = req.body.data();
    let trailers: Hdrs = match req.body.trailers() {
        Some(t) => t.iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect(),
        None => vec![],
    };
    let mut hm = f_h2p::stripped(&req.hdrs, true);
    hm.remove("content-length");
    let mut f = vec![
        field(":method", req.method.as_bytes()),
        field(":scheme", pick(&[&b"http"[..], b"https"])),
        field(":authority", b"a.example"),
        field(":path", req.path.as_bytes()),
    ];
    if wc(1, 3) {
        let k = wd(4) as usize;
        f.rotate_left(k);
    }
    if (!data.is_empty() || wc(1, 4)) && wc(1, 2) {
        hm.insert("content-length".into(), vec![data.len().to_string().into_bytes()]);
    }
    req.hdrs = hm.iter().flat_map(|(k, v)| v.iter().map(move |v| (k.clone(), v.clone()))).collect();
    f.extend(hdr_fields(&hm));
    let mut p = SPlan { kind: Kind::Good, fields: f, data, trailers, gap: if wc(1, 2) { wr(0, 3000) as u64 * 1000 } else { 0 }, pause: if wc(1, 4) { wr(1, 3000) as u64 * 1000 } else { 0 }, noise: wc(1, 4), req };
    let w: &[u32] = match focus {
        "C15" | "C10" | "C16" => &[20, 1, 1, 1, 0],
        "C17" => &[6, 1, 1, 0, 4],
        _ => &[6, 3, 2, 3, 1],
    };
    match ww(w) {
        1 => bad_head(&mut p, i),
        2 => {
            p.fields.retain(|f| f.0 != b"content-length");
            if p.data.is_empty() {
                p.data = content(i as u32, wr(1, 3000) as usize).into_iter().take(max.max(1)).collect();
            }
            let n = p.data.len();
            let (what, cl) = match wd(3) {
                0 => ("too-long", n - 1 - wd(n as u32).min(20) as usize),
                1 => ("too-short", n + wr(1, 30) as usize),
                _ => ("much-too-short", n + 100_000),
            };
            p.kind = Kind::BadBody(what);
            p.fields.push(field("content-length", cl.to_string().as_bytes()));
        }
        3 => {
            let n = p.data.len();
            p.kind = Kind::Cancel { code: pick(&[8u32, 8, 8, 0, 2, 1, 5]), after: wd(n as u32 + 1) as usize, delay: if wc(1, 2) { wr(0, 4000) as u64 * 1000 } else { 0 } };
        }
        4 => {
            let lim = side.hls.unwrap_or(16_384) as usize;
            let n = lim + wr(200, 3000) as usize;
            p.kind = Kind::Oversize;
            let k = wr(1, 5) as usize;
            for j in 0..k {
                p.fields.push((format!("x-big-{j}").into_bytes(), vec![b'b'; n / k + 1]));
            }
        }
        _ => {}
    }
    p
}
fn bad_head(p: &mut SPlan, i: usize) {
    let drop = |p: &mut SPlan, n: &str| p.fields.retain(|f| f.0 != n.as_bytes());
    let what = match wd(13) {
        0 => {
            drop(p, ":method");
            "no-method"
        }
        1 => {
            drop(p, ":scheme");
            "no-scheme"
        }
        2 => {
            drop(p, ":path");
            "no-path"
        }
        3 => {
            p.fields.push(field(":path", b"/again"));
            "pseudo-late"
        }
        4 => {
            p.fields.insert(0, field(":method", b"PUT"));
            "pseudo-twice"
        }
        5 => {
            p.fields.insert(0, field(":status", b"200"));
            "status-in-request"
        }
        6 => {
            p.fields.push(field("connection", b"close"));
            "connection"
        }
        7 => {
            p.fields.push(field("transfer-encoding", b"chunked"));
            "transfer-encoding"
        }
        8 => {
            p.fields.push(field("te", b"gzip"));
            "te"
        }
        9 => {
            p.fields.push(field("keep-alive", b"5"));
            "keep-alive"
        }
        10 => {
            drop(p, "content-length");
            p.fields.push(field("content-length", pick(&[&b"abc"[..], b"-1", b"99999999999999999999999"])));
            "content-length-text"
        }
        11 => {
            p.fields = vec![field(":method", b"CONNECT"), field(":authority", b"a.example:1"), field("content-length", pick(&[&b"5"[..], b"1", b"100"]))];
            "connect-with-length"
        }
        _ => {
            p.fields = vec![field(":method", b"CONNECT"), field(":authority", b"a.example:1"), field(":path", format!("/r{i}").as_bytes()), field(":scheme", b"http")];
            "connect-with-path"
        }
    };
    if wc(1, 2) {
        p.data.clear();
        p.trailers.clear();
    }
    p.kind = Kind::BadHead(what);
}

/// What a client must never do on a connection.
pub fn offence(p: &Peer, next: u32) -> &'static str {
    let used = p.st.borrow().streams.keys().last().copied();
    match wd(19) {
        0 => {
            p.send(DATA, 0, next + 20, b"abc");
            "data-on-idle"
        }
        1 => {
            p.headers(next + 1, &[field(":method", b"GET")], true, false);
            "even-stream"
        }
        2 => {
            p.send(SETTINGS, 0, next, &[]);
            "settings-on-stream"
        }
        3 => {
            p.send(SETTINGS, 0, 0, &[0, 1, 2]);
            "settings-length"
        }
        4 => {
            p.send(SETTINGS, 0, 0, &[0, 4, 0xff, 0xff, 0xff, 0xff]);
            "settings-window"
        }
        5 => {
            p.send(SETTINGS, 0, 0, &[0, 5, 0, 0, 0, 9]);
            "settings-frame"
        }
        6 => {
            p.send(WINDOW, 0, 0, &0x7fff_ffffu32.to_be_bytes());
            "window-overflow"
        }
        7 => {
            p.send(CONT, 4, next, b"\x82");
            "continuation-alone"
        }
        8 => {
            p.send(HEADERS, 5, next, &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]);
            "hpack-integer"
        }
        9 => {
            p.send(HEADERS, 5, next, &[0xfe]);
            "hpack-index"
        }
        10 => {
            p.send(HEADERS, 1, next, b"\x82\x84");
            p.send(PING, 0, 0, &[0; 8]);
            "block-interrupted"
        }
        11 => {
            let mut b = vec![0; 16_385 * 1024];
            b[0] = 1;
            let mut h = frame(DATA, 0, next, &b);
            h.truncate(60_000);
            p.push(&h);
            "frame-too-large"
        }
        12 => {
            p.send(PUSH, 4, next, &[0, 0, 0, 2, 0x82]);
            "push"
        }
        13 => {
            p.send(PING, 0, 0, &[1, 2, 3]);
            "ping-length"
        }
        14 => {
            p.send(PING, 0, next, &[0; 8]);
            "ping-on-stream"
        }
        15 => {
            p.send(RST, 0, next + 20, &[0, 0, 0, 8]);
            "reset-of-idle"
        }
        16 => {
            p.send(DATA, 8, used.unwrap_or(next), &[200, 1, 2]);
            if used.is_none() {
                return "data-on-idle";
            }
            "padding"
        }
        17 => {
            p.send(DATA, 0, 0, b"abc");
            "data-on-zero"
        }
        _ => {
            p.send(WINDOW, 0, 0, &[0, 0, 0, 0]);
            "window-zero"
        }
    }
}

pub fn run_family(focus: &'static str) {
    draw_knobs();
    let mut side = draw_side(focus, false);
    if focus == "C17" {
        side.mcs = pick(&[None, Some(1), Some(2), Some(3)]);
    }
    let n = match ww(&[2, 4, 3]) {
        0 => 1,
        1 => wr(2, 4),
        _ => wr(5, 9),
    } as usize;
    let window = pick(&[65_535u32, 65_535, 1 << 20, 100, 1, 5_000]);
    let fmax = pick(&[16_384usize, 16_384, 20_000, 100_000]);
    let small = side.stream_window().min(window) as usize;
    let max = (small.min(side.send_buf.unwrap_or(1 << 20).max(50)) * 150).max(300);
    let plans: Vec<SPlan> = (0..n).map(|i| plan(i, focus, max, &side)).collect();
    let mut resps: Vec<HResp> = plans.iter().enumerate().map(|(i, p)| gen_resp(i, &p.req, max, focus, 0)).collect();
    for (r, p) in resps.iter_mut().zip(&plans) {

        if wc(1, 8) && !r.body.steps.is_empty() && r.read != SRead::Echo {
            let k = wd(r.body.steps.len() as u32) as usize;
            r.body.steps.truncate(k);
            r.body.steps.retain(|s| !matches!(s, Step::Trailers(_)));
            r.body.steps.push(Step::Err);
            r.body.hint = Hint::Unknown;
            r.body.eos = false;
            r.hdrs.retain(|h| h.0 != "content-length");
        }
        if matches!(p.kind, Kind::Cancel { .. }) && wc(1, 3) {
            r.mode = Mode::Hang;
        }
        if r.mode == Mode::Hang && p.data.len() > 300 {
            r.mode = Mode::Answer; // would keep the window of the connection
        }
    }
    // more streams at once than allowed
    let burst = focus == "C17" && wc(1, 2);
    let offends = match focus {
        "C18" => wc(1, 2),
        "C23" | "C05" => wc(1, 8),
        _ => false,
    };
    let mut plans = plans;
    if side.mcs.is_some() && (burst || plans.iter().any(|p| p.kind != Kind::Good)) {
        // trailers of a refused stream are an error of the connection to h2
        for p in &mut plans {
            p.trailers.clear();
        }
    }
    let abrupt = matches!(focus, "C18" | "C05" | "C22") && !offends && wc(1, 2);
    let mangle = focus == "C18" && !offends && !abrupt && wc(1, 2);
    let graceful = matches!(focus, "C10" | "C22") && wc(2, 3);
    let goaway_at_end = wc(1, 2);
    let pausing = wc(1, 5);
    let policy = Policy { batch: pick(&[1i64, 1, 1000, 20_000]), delay: pick(&[0u64, 0, 100_000, 3_000_000]), ack_settings_after: if side.stream_window() < 65_535 || side.adaptive { 0 } else { pick(&[0u64, 0, 0, 2_000_000]) } };
    let (mut k0, mut k1) = (draw_io(), draw_io());
    for k in [&mut k0, &mut k1] {
        k.cap = k.cap.max(4096);
        k.latency = k.latency.min(500_000);
        k.rst_on_drop = false;
        k.linger = true;
        k.buffered = false;
    }
    tr(|| format!("h2s n={n} side {side:?} window {window} frame {fmax} burst {burst} offends {offends} abrupt {abrupt} mangle {mangle} graceful {graceful}"));
    for (i, p) in plans.iter().enumerate() {
        tr(|| format!("  r{i}: {:?} {} {} data {} trailers {} gap {} pause {} resp {:?} {} {:?} read {:?}", p.kind, p.req.method, p.req.path, p.data.len(), p.trailers.len(), p.gap, p.pause, resps[i].mode, resps[i].status, resps[i].body, resps[i].read));
    }
    let (cs, ss) = connect("h2s", k0, k1);
    let conn = cs.conn;
    with(|w| w.net.conns[conn].watch[0] = false);
    let sh: Sh = Rc::default();
    sh.borrow_mut().bodies = vec![None; n + 1];
    let rp = Rc::new(RefCell::new(resps.clone()));
    let (sh2, rp2) = (sh.clone(), rp.clone());
    let svc = hyper::service::service_fn(move |req| f_h2p::serve(req, rp2.clone(), sh2.clone()));
    let c = server_builder(&side).serve_connection(ss, svc);
    let cmd: Rc<RefCell<Cmd>> = Rc::default();
    let d = Driver { conn: Box::pin(c), cmd: cmd.clone(), shut: |c| c.graceful_shutdown() };
    let sh2 = sh.clone();
    let server_task = spawn_in(4, "server", async move {
        let r = d.await;
        tr(|| format!("  server result {r:?}"));
        sh2.borrow_mut().server_result = Some(r.map_err(|e| format!("{e:?}")));
    });
    // -- the raw client
    let peer = Peer::new(cs, true, window, fmax, 4096, policy);
    let mut list = vec![(4u16, window), (5, fmax as u32)];
    if wc(1, 3) {
        list.push((1, pick(&[0u32, 100, 4096])));
    }
    if wc(1, 3) {
        list.push((2, 0));
    }
    if wc(1, 6) {
        list.push((0x99, 7));
    }
    peer.open(&list);
    if mangle {
        peer.st.borrow_mut().lenient = true;
        sh.borrow_mut().spoiled = true;
        let (total, kinds) = (plans.iter().map(|p| p.data.len() + 150).sum::<usize>() as u32, wr(1, 3));
        let v: Vec<(usize, u8)> = (0..kinds).map(|_| (24 + wd(total) as usize, if wc(1, 2) { 1u8 << wd(8) } else { wd(255) as u8 + 1 })).collect();
        net::dir(conn, 0, |d| d.mangle = v);
    }
    peer.spawn();
    if abrupt {
        let total: u32 = plans.iter().map(|p| p.data.len() as u32).sum::<u32>() + resps.iter().map(|r| r.body.len() as u32).sum::<u32>();
        let dirn = wd(2) as usize;
        let at = if wc(1, 2) { wd(total + 300) } else { wd(600) };
        plan_fault(conn, dirn, at as u64, pick(if dirn == 0 { &[Fault::Eof, Fault::Reset, Fault::ReadErr] } else { &[Fault::Eof, Fault::Reset, Fault::WriteErr] }));
        net::arm(conn);
    }
    let ids: Rc<RefCell<Vec<Option<u32>>>> = Rc::new(RefCell::new(vec![None; n]));
    let scripts_left = Rc::new(std::cell::Cell::new(n));
    let (p2, plans2, ids2, left2) = (peer.clone(), plans.clone(), ids.clone(), scripts_left.clone());
    let wait_settings = !wc(1, 4) || side.stream_window() < 65_535 || side.mcs.is_some();
    spawn_in(8, "raw-client", async move {
        if wait_settings {
            // the preface of the server, applied before anything depends on it
            p2.until(|s| s.peer_settings > 0).await;
        }
        for (i, p) in plans2.into_iter().enumerate() {
            sleep(p.gap).await;
            if !burst {
                let lim = |s: &State| s.peer.get(&3).copied().unwrap_or(u32::MAX) as usize;
                p2.until(|s| s.streams.values().filter(|x| x.rst.is_none() && !x.we_reset && !(x.ended && x.we_ended)).count() < lim(s)).await;
            }
            if p2.st.borrow().offended {
                left2.set(left2.get() - 1);
                continue;
            }
            let sid = 1 + 2 * i as u32;
            ids2.borrow_mut()[i] = Some(sid);
            let body = !p.data.is_empty() || wc(1, 5) && p.trailers.is_empty();
            let end_now = !body && p.trailers.is_empty();
            tr(|| format!("  raw opens stream {sid} for {i} ({:?})", p.kind));
            p2.headers(sid, &p.fields, end_now, !matches!(p.kind, Kind::BadHead(_)));
            let (p3, left3) = (p2.clone(), left2.clone());
            let script = async move {
                one_stream(&p3, sid, &p, body, end_now, graceful).await;
                left3.set(left3.get() - 1);
            };
            spawn_in(8, format!("script{i}"), script);
        }
    });
    if pausing {
        let (p2, d, t) = (peer.clone(), wr(0, 4000) as u64 * 1000, wr(1, 50) as u64 * MS);
        spawn_in(8, "pauser", async move {
            sleep(d).await;
            p2.pause(true);
            sleep(t).await;
            p2.pause(false);
        });
    }
    if wc(1, 3) && !mangle {
        // settings change on the way
        let (p2, d, w) = (peer.clone(), wr(0, 6000) as u64 * 1000, pick(&[0u32, 1, 1000, 65_535, 200_000]));
        let w = if w == 1 && resps.iter().zip(&plans).any(|(r, p)| r.body.len().max(p.data.len() as u64) > 20_000) { 1000 } else { w };
        spawn_in(8, "resettler", async move {
            sleep(d).await;
            if p2.st.borrow().offended || p2.st.borrow().closed {
                return;
            }
            p2.settings(&[(4, w)]);
            if w < 1000 {
                sleep(20 * MS).await;
                if !p2.st.borrow().offended && !p2.st.borrow().closed {
                    p2.settings(&[(4, 50_000)]);
                }
            }
        });
    }
    let mut offended = "";
    let off_name: Rc<RefCell<&'static str>> = Rc::default();
    if offends {
        let (p2, d, on) = (peer.clone(), wd(8000) as u64 * 1000, off_name.clone());
        spawn_in(8, "offender", async move {
            p2.until(|s| s.peer_settings > 0).await;
            sleep(d).await;
            p2.st.borrow_mut().offended = true;
            let next = 1 + 2 * n as u32;
            let w = offence(&p2, next);
            tr(|| format!("  raw offends: {w}"));
            count("protocol_violations");
            *on.borrow_mut() = w;
        });
    }
    let g_at = if graceful { Some(if sc(1, 4) { sd(2000) } else { sd(250) } as u64) } else { None };
    let start = with(|w| w.steps);
    let mut gdone = false;
    let sh4 = sh.clone();
    let stop = move || {
        let s = with(|w| w.steps) - start;
        if let Some(g) = g_at {
            if s >= g && !gdone && !cmd.borrow().done {
                gdone = true;
                let mut sh = sh4.borrow_mut();
                sh.graceful = true;
                sh.calls_at_graceful = sh.calls.len();
                drop(sh);
                let mut c = cmd.borrow_mut();
                c.graceful = true;
                if let Some(w) = c.waker.take() {
                    drop(c);
                    w.wake();
                }
            }
        }
        false
    };
    let lim = || Limits { max_steps: 800_000, horizon: 3600 * SEC };
    let end = run(lim(), stop);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 1 ended with {end:?}"));
        return;
    }
    if offends {
        offended = *off_name.borrow();
    }
    let c = Ctx { plans, resps, sh: sh.clone(), ids: ids.borrow().clone(), side, conn, burst, offended, abrupt, mangle, peer: peer.clone(), window };
    judge(&c, true);
    if violated() {
        return;
    }
    // -- the end
    if goaway_at_end && offended.is_empty() && !mangle {
        peer.send(GOAWAY, 0, 0, &[0; 8]);
    }
    peer.close();
    let end = run(lim(), || false);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 2 ended with {end:?}"));
        return;
    }
    judge(&c, false);
    if violated() {
        return;
    }
    released(server_task, conn, 1, &[4, 5, 7]);
    if !violated() && sh.borrow().active != 0 {
        violate("service-leak", format!("{} service calls still alive", sh.borrow().active));
    }
}

async fn one_stream(p: &Peer, sid: u32, plan: &SPlan, body: bool, end_now: bool, graceful: bool) {
    if plan.noise {
        match wd(5) {
            0 => p.send(PRIORITY, 0, sid, &[0, 0, 0, if sid == 1 { 3 } else { 1 }, 9]),
            1 => p.send(0xbe, 0x55, sid, b"unknown"),
            2 => p.send(PING, 0, 0, b"12345678"),
            3 if graceful => {} // h2 takes it for a violation when the stream is beyond the mark
            3 => p.widen(sid, 9),
            _ => p.send(0xfe, 1, 0, b""),
        }
    }
    let gone = |s: &State| s.streams.get(&sid).map_or(true, |x| x.rst.is_some() || x.we_reset);
    if plan.noise {
        let mut s = p.st.borrow_mut();
        let _ = &mut s;
    }
    sleep(plan.pause).await;
    if let Kind::Cancel { code, after, delay } = plan.kind {
        if !end_now {
            if after > 0 && !p.data(sid, &plan.data[..after], false, true).await {
                return;
            }
        }
        sleep(delay).await;
        if !gone(&p.st.borrow()) && !p.st.borrow().offended {
            count("peer_resets");
            p.rst(sid, code);
        }
        return;
    }
    if end_now {
        return;
    }
    let tail = !plan.trailers.is_empty();
    if body {
        // in pieces with pauses, or at once
        let k = wr(1, 3) as usize;
        let n = plan.data.len();
        let mut q = 0;
        for j in 1..=k {
            let to = if j == k { n } else { q + wd((n - q) as u32 + 1) as usize };
            let last = j == k;
            if to > q || last {
                if !p.data(sid, &plan.data[q..to], last && !tail, true).await {
                    return;
                }
            }
            q = to;
            if !last && wc(1, 2) {
                sleep(wr(0, 2000) as u64 * 1000).await;
            }
        }
    }
    if tail && !gone(&p.st.borrow()) {
        let f: Vec<Field> = plan.trailers.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.clone())).collect();
        p.headers(sid, &f, true, true);
    }
}

struct Ctx {
    plans: Vec<SPlan>,
    resps: Vec<HResp>,
    sh: Sh,
    ids: Vec<Option<u32>>,
    side: Side,
    conn: usize,
    burst: bool,
    offended: &'static str,
    abrupt: bool,
    mangle: bool,
    peer: Peer,
    #[allow(dead_code)]
    window: u32,
}

fn judge(c: &Ctx, open: bool) {
    let s = c.sh.borrow();
    let p = c.peer.st.borrow();
    let calm = c.offended.is_empty() && !(c.abrupt && net::any_fault_fired(c.conn)) && !c.mangle && !s.server_result.as_ref().is_some_and(|r| r.as_ref().is_err_and(|e| e.contains("ENHANCE_YOUR_CALM")));
    let graceful = s.graceful;
    let written = dir(c.conn, 1, |d| d.written.clone());
    check_settings(&written, false, &c.side);
    if violated() {
        return;
    }
    // a call whose stream was reset lives until its task hears of it
    let resets = c.plans.iter().any(|p| matches!(p.kind, Kind::Cancel { .. } | Kind::BadBody(_))) || p.streams.values().any(|x| x.rst.is_some());
    if let Some(m) = c.side.mcs {
        if s.max_active > m as usize && !c.resps.iter().any(|r| matches!(r.read, SRead::Side | SRead::Hold(_))) && !resets {
            violate("too-many-streams", format!("{} service calls at once, but only {m} streams are allowed", s.max_active));
            return;
        }
    }
    // calls in the order of their streams, one each
    let mut seen = vec![0; c.plans.len()];
    for call in &s.calls {
        if call.req < seen.len() {
            seen[call.req] += 1;
        }
    }
    let mark = p.goaways.last().map(|g| g.0).unwrap_or(u32::MAX);
    let final_mark = mark < 0x7fff_ffff;
    if !open && s.server_result.is_none() {
        violate("conn-never-ends", "the transport has ended but the connection future has not".into());
        return;
    }
    if matches!(s.server_result, Some(Ok(()))) && !graceful && dir(c.conn, 0, |d| d.err_seen) && !c.mangle {
        violate("read-error-swallowed", format!("a read failed after {} bytes but the connection ended Ok", dir(c.conn, 0, |d| d.read_total)));
        return;
    }
    if !c.mangle {
        if let (Some(Err(e)), true) = (&s.server_result, calm) {
            violate("conn-error", format!("nothing failed on the connection but it ended with {e}"));
            return;
        }
    }
    if open && calm && !graceful && s.server_result.is_some() {
        violate("conn-ended-early", format!("the connection ended on its own: {:?}", s.server_result));
        return;
    }
    let hung = s.calls.iter().any(|k| !k.gone && c.resps.get(k.req).is_some_and(|r| r.mode == Mode::Hang));
    // h2 never lets go of a stream that it was about to reset itself when its
    // peer's reset comes first and no window is left
    let leaked = s.calls.iter().any(|k| c.ids.get(k.req).copied().flatten().is_some_and(|sid| p.streams[&sid].we_reset) && matches!(k.log.borrow().end, BodyEnd::Dropped));
    if open && calm && graceful && !hung && !leaked && s.server_result.is_none() {
        violate("graceful-stuck", "graceful shutdown was asked for and everything is over, but the connection goes on".into());
        return;
    }
    if !c.offended.is_empty() {
        // told and reported
        if !matches!(s.server_result, Some(Err(_))) && !graceful {
            violate("violation-swallowed", format!("after {}: connection {:?}, GOAWAYs {:?}", c.offended, s.server_result, p.goaways));
            return;
        }
        if !p.goaways.iter().any(|g| g.1 != 0) && !graceful {
            violate("violation-untold", format!("after {}: GOAWAYs {:?}", c.offended, p.goaways));
            return;
        }
    }
    if calm && !graceful && !p.goaways.iter().all(|g| g.1 == 0) {
        violate("needless-goaway", format!("{:?}", p.goaways));
        return;
    }
    for (i, plan) in c.plans.iter().enumerate() {
        let Some(sid) = c.ids[i] else { continue };
        let x = &p.streams[&sid];
        let call = s.calls.iter().find(|k| k.req == i);
        let show = || {
            format!(
                "stream {sid} ({:?}): called {} body {:?}; answered {:?} data {} ended {} reset {:?}; goaway {:?}",
                plan.kind,
                seen[i],
                call.map(|k| (k.log.borrow().data.len(), k.log.borrow().end.clone())),
                x.heads.iter().map(|h| h.0.first().map(|f| String::from_utf8_lossy(&f.1).to_string())).collect::<Vec<_>>(),
                x.data.len(),
                x.ended,
                x.rst,
                p.goaways
            )
        };
        if c.mangle {
            continue;
        }
        if seen[i] > 1 {
            violate("called-twice", show());
            return;
        }
        if matches!(plan.kind, Kind::BadHead(_) | Kind::Oversize) && seen[i] > 0 {
            violate("bad-delivered", show());
            return;
        }
        // what the service was given
        let want = f_h2p::stripped(&plan.req.hdrs, true);
        if let Some(k) = call {
            let path = k.uri.split_once("a.example").map_or("", |u| u.1);
            let mut hs = k.hdrs.clone();
            hs.remove("content-length");
            let mut w2 = want.clone();
            w2.remove("content-length");
            if k.method != plan.req.method || path != plan.req.path || hs != w2 || !k.v2 {
                violate("request-altered", format!("{} got {} {} {}", show(), k.method, k.uri, show_hmap(&k.hdrs)));
                return;
            }
            let l = k.log.borrow();
            let good = matches!(plan.kind, Kind::Good) || matches!(plan.kind, Kind::Cancel { .. });
            if good && !plan.data.starts_with(&l.data) {
                violate("request-body", show());
                return;
            }
            if l.clean() {
                let tr: HMap = l.trailers.as_ref().map(hmap_http).unwrap_or_default();
                let full = x.we_ended && l.data == plan.data && tr == hmap(&plan.trailers);
                if matches!(plan.kind, Kind::BadBody(_)) || !full {
                    // a stream reset with NO_ERROR may end early, unless a length was declared
                    let excuse = matches!(plan.kind, Kind::Cancel { code: 0, .. }) && (l.data == plan.data || !plan.fields.iter().any(|f| f.0 == b"content-length"));
                    if !excuse {
                        violate("truncated-complete", show());
                        return;
                    }
                }
            }
            // bodies of ended streams are let go of
            if open && (x.rst.is_some() || x.we_reset || x.ended) {
                if let Some(b) = s.bodies[i] {
                    if !with(|w| w.bodies[b].dropped) {
                        violate("body-not-stopped", format!("{}: the response body is still alive", show()));
                        return;
                    }
                }
            }
        }
        if !calm {
            continue;
        }
        let above = final_mark && sid > mark;
        if above {
            if seen[i] > 0 {
                violate("beyond-goaway", show());
                return;
            }
            continue;
        }
        let refused = x.rst == Some(7) && x.heads.is_empty();
        match &plan.kind {
            Kind::BadHead(w) => {
                let code = match *w {
                    "connect-with-length" => 2,
                    _ => 1,
                };
                if !((x.rst == Some(code) || *w == "connect-with-length" && x.rst == Some(1)) && x.heads.is_empty()) && !((c.burst || resets) && c.side.mcs.is_some() && refused) {
                    violate("bad-not-reset", show());
                    return;
                }
                count("bad_heads_refused");
            }
            Kind::Oversize => {
                let st = status(x);
                if st != Some(431) && x.rst.is_none() {
                    violate("oversize-not-refused", show());
                    return;
                }
                count("oversize_refused");
            }
            Kind::BadBody(_) => {
                if (c.burst || resets) && c.side.mcs.is_some() && refused {
                    continue;
                }
                let answered = x.ended && x.rst.is_none();
                // it may have been answered before its body went wrong
                if x.rst.is_none() && !answered {
                    violate("bad-not-reset", show());
                    return;
                }
                count("bad_bodies");
            }
            Kind::Cancel { .. } => {
                if open && x.we_reset && call.is_some_and(|k| !k.gone) {
                    violate("call-not-cancelled", show());
                    return;
                }
            }
            Kind::Good => {
                if refused {
                    if (c.burst || resets) && c.side.mcs.is_some() && seen[i] == 0 {
                        count("refused_streams");
                        continue;
                    }
                    violate("good-refused", show());
                    return;
                }
                good(c, i, x, &show);
                if violated() {
                    return;
                }
            }
        }
    }
    if open && calm && !graceful {
        // whatever became of the streams, the connection window is given back
        let total = if c.side.adaptive { 65_535 } else { c.side.cw.unwrap_or(1 << 20) as i64 }.max(65_535);
        let held: i64 = s.calls.iter().map(|k| if matches!(k.log.borrow().end, BodyEnd::Open) { 1 } else { 0 }).sum();
        if p.conn_send < total / 2 - 1 && held == 0 {
            violate("capacity-leak", format!("all streams are over but only {} of {total} bytes of the connection window are available", p.conn_send));
            return;
        }
        let hanging = c.plans.iter().enumerate().any(|(i, p)| matches!(c.resps[i].mode, Mode::Hang) && !matches!(p.kind, Kind::BadHead(_)));
        if !hanging {
            let l = live_tasks(5);
            if !l.is_empty() {
                violate("stream-task-leak", format!("{l:?}"));
            }
        }
    }
}
fn status(x: &RStream) -> Option<u16> {
    let f = x.heads.first()?.0.first()?;
    if f.0 != b":status" {
        return None;
    }
    std::str::from_utf8(&f.1).ok()?.parse().ok()
}
fn good(c: &Ctx, i: usize, x: &RStream, show: &dyn Fn() -> String) {
    let r = &c.resps[i];
    let plan = &c.plans[i];
    match r.mode {
        Mode::Fail => {
            if x.rst != Some(2) || !x.heads.is_empty() {
                violate("service-error-reason", show());
            }
            return;
        }
        Mode::Hang => {
            if !x.heads.is_empty() || x.rst.is_some() {
                violate("unasked-answer", show());
            }
            return;
        }
        Mode::Answer => {}
    }
    let head = plan.req.method == "HEAD";
    let echo = r.read == SRead::Echo;
    let (data, tr, fails) = if echo { (plan.data.clone(), plan.trailers.clone(), false) } else { (r.body.data(), r.body.trailers().map(|t| t.iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect()).unwrap_or_default(), r.body.fails()) };
    if fails && !head && x.heads.is_empty() && x.rst == Some(2) {
        // the reset overtook what was still queued
        count("failed_bodies");
        return;
    }
    if status(x) != Some(r.status) {
        violate("response-lost", format!("{} wanted {}", show(), r.status));
        return;
    }
    let mut got: HMap = HMap::new();
    for (k, v) in x.heads[0].0.iter().skip(1) {
        got.entry(String::from_utf8_lossy(k).to_string()).or_default().push(v.clone());
    }
    let want = f_h2p::stripped(&r.hdrs, false);
    let date = got.remove("date");
    let cl = got.remove("content-length");
    let mut w2 = want.clone();
    let wdate = w2.remove("date");
    let wcl = w2.remove("content-length");
    if got != w2 {
        violate("response-headers", format!("{} got {} wanted {}", show(), show_hmap(&got), show_hmap(&w2)));
        return;
    }
    match (&wdate, &date) {
        (Some(w), Some(d)) if w == d => {}
        (None, Some(d)) if c.side.date && d.len() == 1 => {}
        (None, None) if !c.side.date => {}
        _ => {
            violate("date", format!("{}: {date:?} supplied {wdate:?}", show()));
            return;
        }
    }
    if let Some(v) = &cl {
        let ok = wcl.as_ref() == Some(v) || wcl.is_none() && v.len() == 1 && (head || v[0] == data.len().to_string().into_bytes());
        if !ok {
            violate("response-length", format!("{}: {cl:?}", show()));
            return;
        }
    }
    if fails && !head {
        if x.rst != Some(2) || x.ended || !data.starts_with(&x.data) {
            violate("failed-body-reason", show());
        }
        return;
    }
    if head && !echo {
        if !x.data.is_empty() || !x.ended {
            violate("head-with-body", show());
        }
        return;
    }
    if !x.ended || x.data != data {
        violate("response-body", format!("{} wanted {} bytes", show(), data.len()));
        return;
    }
    let t: HMap = if x.heads.len() > 1 { hmap(&x.heads[1].0.iter().map(|(k, v)| (String::from_utf8_lossy(k).to_string(), v.clone())).collect::<Vec<_>>()) } else { HMap::new() };
    if t != hmap(&tr) || x.heads.len() > 2 {
        violate("response-trailers", format!("{} got {}", show(), show_hmap(&t)));
        return;
    }
    // a reset of what is complete only says that no more of the request is needed
    if x.rst.is_some_and(|r| r != 0) {
        violate("needless-reset", show());
        return;
    }
    count("good_streams");
}
