//! Family bdp: adaptive HTTP/2 windows under long transfers both ways over
//! slow, blocked and congested transports.
use crate::body::*;
use crate::core::*;
use crate::f_h1s::released;
use crate::f_h2p::{be32, client_builder, draw_side, frames, server_builder, settings, settled, stalemate, tell_frames, Handle, Side, PREFACE};
use crate::gen::*;
use crate::h2raw::{field, Peer, Policy};
use crate::net::{self, *};
use bytes::Bytes;
use std::cell::RefCell;
use std::rc::Rc;

const S: u64 = 1_000_000_000;
/// what the windows may grow to
const LIMIT: i64 = 16 << 20;

fn body(id: u32, pattern: &Bytes, top: usize) -> BodySpec {
    let len = match ww(&[1, 2, 4, 3]) {
        0 => wr(1, 5000) as usize,
        1 => wr(5_000, 100_000) as usize,
        2 => wr(100_000, 500_000) as usize,
        _ => wr(500_000, 1_500_000) as usize,
    };
    let len = if top > 0 { top } else { len };
    let chunk = if top > 0 { 1 << 20 } else { pick(&[3_000usize, 20_000, 100_000, 500_000]) };
    let slow = top == 0 && wc(1, 3);
    let mut steps = Vec::new();
    let mut j = 0;
    while j < len {
        if slow && wc(1, 5) {
            steps.push(Step::Pend(pick(&[100_000u64, 5_000_000, 120_000_000])));
        }
        let m = chunk.min(len - j);
        let o = (j + id as usize * 977) % (pattern.len() - m + 1);
        steps.push(Step::Data(pattern.slice(o..o + m), 1));
        j += m;
    }
    BodySpec { steps, hint: pick(&[Hint::Exact, Hint::Unknown]), eos: wc(1, 2) }
}

#[derive(Clone, Debug)]
struct Ex {
    gap: u64,
    req: Option<BodySpec>,
    resp: BodySpec,
    aside: bool,
    read_gap: [u64; 2],
}
#[derive(Default)]
struct St {
    req_ok: Vec<Option<bool>>,
    resp_ok: Vec<Option<bool>>,
    errs: Vec<String>,
    ended: [Option<Result<(), String>>; 2],
}

async fn drain(mut cb: CheckedBody<hyper::body::Incoming>, gap: u64) -> LogRef {
    let mut k = 0u64;
    loop {
        match cb.frame().await {
            Some(Ok(_)) => {
                k += 1;
                if gap > 0 && k % 8 == 0 {
                    sleep(gap).await;
                }
            }
            _ => return cb.log.clone(),
        }
    }
}

thread_local! {
    static PATTERN: Bytes = Bytes::from(content(4, 2 << 20));
}

pub fn run_family(focus: &'static str) {
    if wc(1, 4) {
        return raw_sender(focus, wc(1, 2));
    }
    let mut k = draw_knobs();
    k.poll_cost = k.poll_cost.min(2_000);
    with(|w| w.knobs = k);
    let (mut cs, mut ss): (Side, Side) = (draw_side(focus, true), draw_side(focus, false));
    let which = ww(&[2, 1, 2]);
    cs.adaptive = which != 1;
    ss.adaptive = which != 0;
    for s in [&mut cs, &mut ss] {
        s.send_buf = pick(&[None, None, Some(20_000), Some(100_000)]);
        s.mcs = None;
        if !s.adaptive {
            s.sw = pick(&[None, Some(65_535), Some(400_000)]);
        }
        // (what comes after adaptive_window takes its place)
        if s.adaptive {
            s.sw = None;
            s.cw = None;
        }
    }
    // once in a while as much as the limit is about
    let huge = focus == "C16" && wc(1, 250);
    let pattern = PATTERN.with(|p| p.clone());
    let n = if huge { 1 } else { 1 + ww(&[3, 3, 2]) };
    let exs: Vec<Ex> = (0..n as u32)
        .map(|i| Ex {
            gap: if huge { 0 } else { pick(&[0u64, 0, 1_000_000, 300_000_000]) },
            req: if huge { if which == 0 { None } else { Some(body(i, &pattern, 90 << 20)) } } else if wc(1, 2) { Some(body(i, &pattern, 0)) } else { None },
            resp: if huge { if which == 0 { body(50 + i, &pattern, 90 << 20) } else { BodySpec::empty() } } else { body(50 + i, &pattern, 0) },
            aside: wc(1, 2),
            read_gap: if huge { [0, 0] } else { [pick(&[0u64, 0, 0, 100_000, 2_000_000]), pick(&[0u64, 0, 0, 100_000, 2_000_000])] },
        })
        .collect();
    let io = || {
        let mut k = draw_io();
        k.latency = if huge { 40_000_000 } else { pick(&[0u64, 20_000, 1_000_000, 1_000_000, 20_000_000]) };
        k.cap = if huge { 256 << 20 } else { pick(&[2_000usize, 20_000, 65_536, 1 << 20, 8 << 20]) };
        k.rst_on_drop = false;
        k.linger = true;
        k.read_mode = if huge { 0 } else { pick(&[0, 0, 3]) };
        k.write_mode = if huge { 0 } else { pick(&[0, 0, 3]) };
        k
    };
    let (k0, k1) = (io(), io());
    tr(|| format!("bdp client adaptive {} server adaptive {} huge {huge} caps {} {} latency {} {}", cs.adaptive, ss.adaptive, k0.cap, k1.cap, k0.latency, k1.latency));
    for e in &exs {
        tr(|| format!("  up {:?} down {} gap {} read gaps {:?}", e.req.as_ref().map(|b| b.len()), e.resp.len(), e.gap, e.read_gap));
    }
    let (csock, ssock) = connect("bdp", k0, k1);
    let conn = csock.conn;
    let st: Rc<RefCell<St>> = Rc::default();
    st.borrow_mut().req_ok = vec![None; n];
    st.borrow_mut().resp_ok = vec![None; n];
    let exs = Rc::new(exs);
    let (st2, ex2) = (st.clone(), exs.clone());
    let svc = hyper::service::service_fn(move |req: http::Request<hyper::body::Incoming>| {
        let (st, exs) = (st2.clone(), ex2.clone());
        let i = crate::f_h2p::path_index(req.uri().path());
        Box::pin(async move {
            let p = exs[i].clone();
            let cb = CheckedBody::new_h2(req.into_body(), format!("req{i}"));
            let want = p.req.as_ref().map(|b| b.data()).unwrap_or_default();
            let rd = async move {
                let l = drain(cb, p.read_gap[1]).await;
                let l = l.borrow();
                st.borrow_mut().req_ok[i] = Some(l.clean() && l.data == want);
                if !l.clean() {
                    st.borrow_mut().errs.push(format!("request body {i}: {:?} after {} of {}", l.end, l.data.len(), want.len()));
                }
            };
            if p.aside {
                spawn_in(7, "reader", rd);
            } else {
                rd.await;
            }
            Ok::<_, SimErr>(http::Response::new(p.resp.build(format!("resp{i}"))))
        }) as std::pin::Pin<Box<dyn std::future::Future<Output = _>>>
    });
    let c = server_builder(&ss).serve_connection(ssock, svc);
    let s2 = st.clone();
    let server_task = spawn_in(4, "server", async move {
        let r = c.await;
        tr(|| format!("  server result {r:?}"));
        s2.borrow_mut().ended[1] = Some(r.map_err(|e| format!("{e:?}")));
    });
    let slot: Rc<RefCell<Option<Handle>>> = Rc::default();
    let up = Gate::new();
    let (slot2, up2, s2) = (slot.clone(), up.clone(), st.clone());
    let b = client_builder(&cs);
    let client_task = spawn_in(1, "client", async move {
        let r = match b.handshake(csock).await {
            Ok((h, c)) => {
                *slot2.borrow_mut() = Some(h);
                up2.open();
                c.await
            }
            Err(e) => {
                up2.open();
                Err(e)
            }
        };
        tr(|| format!("  client result {r:?}"));
        s2.borrow_mut().ended[0] = Some(r.map_err(|e| format!("{e:?}")));
    });
    let (st2, ex2) = (st.clone(), exs.clone());
    let keep = Gate::new();
    let keep2 = keep.clone();
    spawn_in(2, "caller", async move {
        up.wait().await;
        let Some(mut h) = slot.borrow_mut().take() else { return };
        settled(conn).await;
        for (i, p) in ex2.iter().enumerate() {
            sleep(p.gap).await;
            let b = p.req.clone().unwrap_or_else(BodySpec::empty).build(format!("req{i}"));
            let mut q = http::Request::new(b);
            *q.method_mut() = http::Method::POST;
            *q.uri_mut() = format!("http://a/r{i}").parse().unwrap();
            let f = h.send_request(q);
            let (st, p) = (st2.clone(), p.clone());
            spawn_in(2, format!("outcome{i}"), async move {
                match f.await {
                    Ok(r) => {
                        let l = drain(CheckedBody::new_h2(r.into_body(), format!("resp{i}")), p.read_gap[0]).await;
                        let l = l.borrow();
                        let want = p.resp.data();
                        st.borrow_mut().resp_ok[i] = Some(l.clean() && l.data == want);
                        if !l.clean() {
                            st.borrow_mut().errs.push(format!("response body {i}: {:?} after {} of {}", l.end, l.data.len(), want.len()));
                        }
                    }
                    Err(e) => {
                        st.borrow_mut().resp_ok[i] = Some(false);
                        st.borrow_mut().errs.push(format!("request {i}: {e:?}"));
                    }
                }
            });
        }
        keep2.wait().await;
        drop(h);
    });
    net::arm(conn);
    let end = run(Limits { max_steps: 2_000_000, horizon: 36_000 * S }, || false);
    if violated() || stalemate(conn) {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("ended with {end:?}"));
        return;
    }
    check_windows(conn, 0..2, [cs.adaptive, ss.adaptive], [cs.first_window(true), ss.first_window(false)]);
    if violated() {
        return;
    }
    let calm = |d: usize| net::dir(conn, d, |x| frames(&x.written, [PREFACE.len(), 0][d]).iter().any(|f| f.kind == 7 && be32(&x.written[f.off + 4..]) == 11));
    if calm(0) || calm(1) {
        count("enhance_your_calm");
        return;
    }
    {
        let s = st.borrow();
        if !s.errs.is_empty() {
            violate("exchange-failed", format!("nothing failed but {:?}; connections {:?}", s.errs, s.ended));
            return;
        }
        for i in 0..n {
            if s.req_ok[i] != Some(true) || s.resp_ok[i] != Some(true) {
                violate(if s.req_ok[i].is_none() || s.resp_ok[i].is_none() { "wedged" } else { "body-changed" }, format!("exchange {i}: request body {:?} response body {:?} at quiescence; connections {:?}", s.req_ok[i], s.resp_ok[i], s.ended));
                return;
            }
        }
        if s.ended.iter().any(|e| e.is_some()) {
            violate("conn-ended-early", format!("{:?}", s.ended));
            return;
        }
    }
    keep.open();
    let end = run(Limits { max_steps: 300_000, horizon: 36_000 * S }, || false);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 2 ended with {end:?}"));
        return;
    }
    if st.borrow().ended.iter().any(|e| !matches!(e, Some(Ok(())))) {
        violate("conn-error", format!("nothing failed but the connections ended {:?}", st.borrow().ended));
        return;
    }
    released(client_task, conn, 0, &[1, 2, 3]);
    if violated() {
        return;
    }
    released(server_task, conn, 1, &[4, 5, 7]);
}

/// A raw sender that answers PINGs at once but acknowledges SETTINGS behind
/// what it has to send, as the protocol has it.
fn raw_sender(focus: &'static str, serves: bool) {
    let mut side = draw_side(focus, serves);
    side.adaptive = true;
    side.sw = None;
    side.cw = None;
    side.mcs = None;
    let n = 1 + ww(&[2, 2, 1]);
    let pattern = PATTERN.with(|p| p.clone());
    let bodies: Rc<Vec<BodySpec>> = Rc::new((0..n as u32).map(|i| body(i, &pattern, 0)).collect());
    let gaps: Vec<(u64, u64)> = (0..n).map(|_| (pick(&[0u64, 0, 1_000_000, 300_000_000]), pick(&[0u64, 0, 0, 100_000]))).collect();
    let policy = Policy { batch: 1000, delay: 0, ack_settings_after: pick(&[0u64, 1_000_000, 50_000_000, 500_000_000, 3 * S]) };
    let lat = pick(&[0u64, 20_000, 1_000_000, 20_000_000]);
    let io = || {
        let mut k = draw_io();
        k.latency = lat;
        k.cap = pick(&[20_000usize, 65_536, 1 << 20]);
        k.rst_on_drop = false;
        k.linger = true;
        k
    };
    let (k0, k1) = (io(), io());
    tr(|| format!("bdp raw {} acks after {} ns, bodies {:?} gaps {gaps:?}", if serves { "server" } else { "client" }, policy.ack_settings_after, bodies.iter().map(|b| b.len()).collect::<Vec<_>>()));
    let (csock, ssock) = connect("bdp", k0, k1);
    let conn = csock.conn;
    let got: Rc<RefCell<Vec<Option<Result<(), String>>>>> = Rc::new(RefCell::new(vec![None; n]));
    let ended: Rc<RefCell<Option<Result<(), String>>>> = Rc::default();
    let judge = |l: &LogRef, want: &[u8]| {
        let l = l.borrow();
        Some(if l.clean() && l.data == want { Ok(()) } else { Err(format!("{:?} after {} of {}", l.end, l.data.len(), want.len())) })
    };
    let keep = Gate::new();
    let peer;
    if serves {
        peer = Peer::new(ssock, false, 65_535, 16_384, 4096, policy);
        let (p2, bodies2) = (peer.clone(), bodies.clone());
        spawn_in(8, "raw-server", async move {
            for (i, b) in bodies2.iter().enumerate() {
                let sid = 1 + 2 * i as u32;
                if !p2.until(|s| s.streams.get(&sid).is_some_and(|x| !x.heads.is_empty())).await {
                    return;
                }
                p2.headers(sid, &[field(":status", b"200")], false, false);
                let (p3, d) = (p2.clone(), b.data());
                spawn_in(8, format!("script{i}"), async move {
                    p3.data(sid, &d, true, false).await;
                });
            }
        });
        let b = client_builder(&side);
        let (bodies2, got2, ended2, keep2, p3) = (bodies.clone(), got.clone(), ended.clone(), keep.clone(), peer.clone());
        spawn_in(2, "caller", async move {
            let Ok((mut h, c)) = b.handshake::<_, SimBody>(csock).await else { return };
            spawn_in(1, "client", async move {
                let r = c.await;
                tr(|| format!("  client result {r:?}"));
                *ended2.borrow_mut() = Some(r.map_err(|e| format!("{e:?}")));
            });
            p3.until(|s| s.acks > 0).await;
            for (i, &(gap, read)) in gaps.iter().enumerate() {
                sleep(gap).await;
                let mut q = http::Request::new(BodySpec::empty().build(format!("req{i}")));
                *q.uri_mut() = format!("http://a/r{i}").parse().unwrap();
                let f = h.send_request(q);
                let (bodies, got) = (bodies2.clone(), got2.clone());
                spawn_in(2, format!("outcome{i}"), async move {
                    let r = match f.await {
                        Ok(r) => judge(&drain(CheckedBody::new_h2(r.into_body(), format!("resp{i}")), read).await, &bodies[i].data()),
                        Err(e) => Some(Err(format!("{e:?}"))),
                    };
                    got.borrow_mut()[i] = r;
                });
            }
            keep2.wait().await;
            drop(h);
        });
        peer.spawn();
        peer.open(&[]);
    } else {
        peer = Peer::new(csock, true, 65_535, 16_384, 4096, policy);
        let (bodies2, got2, gaps2) = (bodies.clone(), got.clone(), gaps.clone());
        let svc = hyper::service::service_fn(move |req: http::Request<hyper::body::Incoming>| {
            let (bodies, got) = (bodies2.clone(), got2.clone());
            let i = crate::f_h2p::path_index(req.uri().path());
            let read = gaps2[i].1;
            Box::pin(async move {
                let l = drain(CheckedBody::new_h2(req.into_body(), format!("req{i}")), read).await;
                let r = judge(&l, &bodies[i].data());
                got.borrow_mut()[i] = r;
                Ok::<_, SimErr>(http::Response::new(BodySpec::empty().build(format!("resp{i}"))))
            }) as std::pin::Pin<Box<dyn std::future::Future<Output = _>>>
        });
        let c = server_builder(&side).serve_connection(ssock, svc);
        let ended2 = ended.clone();
        spawn_in(4, "server", async move {
            let r = c.await;
            tr(|| format!("  server result {r:?}"));
            *ended2.borrow_mut() = Some(r.map_err(|e| format!("{e:?}")));
        });
        let (p2, bodies2, keep2) = (peer.clone(), bodies.clone(), keep.clone());
        spawn_in(8, "raw-client", async move {
            p2.until(|s| s.peer_settings > 0 && s.acks > 0).await;
            for (i, b) in bodies2.iter().enumerate() {
                sleep(gaps[i].0).await;
                let sid = 1 + 2 * i as u32;
                let path = format!("/r{i}");
                p2.headers(sid, &[field(":method", b"POST"), field(":scheme", b"http"), field(":path", path.as_bytes()), field(":authority", b"a")], false, false);
                let (p3, d) = (p2.clone(), b.data());
                spawn_in(8, format!("script{i}"), async move {
                    p3.data(sid, &d, true, false).await;
                });
            }
            keep2.wait().await;
            p2.close();
        });
        peer.spawn();
        peer.open(&[]);
    }
    let end = run(Limits { max_steps: 2_000_000, horizon: 36_000 * S }, || false);
    if violated() || stalemate(conn) {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("ended with {end:?}"));
        return;
    }
    let goaways = peer.st.borrow().goaways.clone();
    if goaways.iter().any(|g| g.1 == 11) {
        count("enhance_your_calm");
        return;
    }
    for (i, r) in got.borrow().iter().enumerate() {
        match r {
            Some(Ok(())) => {}
            Some(Err(e)) => return violate("exchange-failed", format!("nothing failed but body {i}: {e}; connection {:?}, GOAWAYs {goaways:?}", ended.borrow())),
            None => return violate("wedged", format!("body {i} at quiescence; connection {:?}, GOAWAYs {goaways:?}", ended.borrow())),
        }
    }
    if let Some(e) = &*ended.borrow() {
        return violate("conn-ended-early", format!("{e:?}, GOAWAYs {goaways:?}"));
    }
    let d = if serves { 0 } else { 1 };
    check_windows(conn, d..d + 1, [true; 2], [side.first_window(serves); 2]);
    if violated() {
        return;
    }
    keep.open();
    let end = run(Limits { max_steps: 300_000, horizon: 36_000 * S }, || false);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 2 ended with {end:?}"));
    } else if !serves && !matches!(&*ended.borrow(), Some(Ok(()))) {
        violate("conn-error", format!("nothing failed but the connection ended {:?}", ended.borrow()));
    }
}

/// The windows that each side announced, in the order of the wire.
fn check_windows(conn: usize, sides: std::ops::Range<usize>, adaptive: [bool; 2], first: [u32; 2]) {
    // (taken out: the world is borrowed only for that)
    let wire = [0, 1].map(|d| net::dir(conn, d, |x| std::mem::take(&mut x.written)));
    let heads = [0, 1].map(|d| frames(&wire[d], [PREFACE.len(), 0][d]));
    for d in sides {
        tell_frames(&heads[d], &wire[d], ["client", "server"][d]);
        let mut last = 0i64;
        let mut pings = 0;
        for f in &heads[d] {
            if f.kind == 6 && f.flags & 1 == 0 {
                pings += 1;
            }
            if f.kind != 4 || f.flags & 1 != 0 {
                continue;
            }
            for (k, v) in settings(&wire[d], f) {
                if k != 4 {
                    continue;
                }
                let v = v as i64;
                if last > 0 {
                    count("window_updates");
                    if !adaptive[d] {
                        violate("window-changed", format!("side {d} announces a window of {v} though its windows are fixed"));
                    } else if v < last {
                        violate("window-shrinks", format!("side {d}: window {last} then {v}"));
                    }
                } else if v != first[d] as i64 {
                    violate("settings", format!("side {d}: first window {v}, configured {}", first[d]));
                }
                if v > LIMIT {
                    violate("window-limit", format!("side {d} announces a window of {v}"));
                }
                last = v;
            }
        }
        if pings > 0 && !adaptive[d] {
            violate("needless-ping", format!("side {d} sends {pings} PINGs though its windows are fixed"));
        }
        if adaptive[d] {
            // the connection's window: all that was granted less all that came
            let granted: i64 = 65_535 + heads[d].iter().filter(|f| f.kind == 8 && f.sid == 0).map(|f| be32(&wire[d][f.off..]) as i64).sum::<i64>();
            let came: i64 = heads[1 - d].iter().filter(|f| f.kind == 0).map(|f| f.len as i64).sum();
            if granted - came > LIMIT + 65_535 {
                violate("window-limit", format!("side {d} leaves a connection window of {}", granted - came));
            }
        }
    }
    for (d, w) in wire.into_iter().enumerate() {
        net::dir(conn, d, |x| x.written = w);
    }
}
