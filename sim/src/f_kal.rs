//! Family kal: hyper HTTP/2 client against hyper HTTP/2 server, with
//! keep-alive and adaptive windows, under silence, stalls and blocked
//! transports in simulated time (C12).
use crate::body::*;
use crate::core::*;
use crate::f_h1s::flags;
use crate::f_h2p::{frames, tell_frames, Handle, PREFACE};
use crate::gen::*;
use crate::net::{self, *};
use std::cell::RefCell;
use std::rc::Rc;
use std::time::Duration;

const MS: u64 = 1_000_000;
const S: u64 = 1_000 * MS;
const SLACK: u64 = 60 * MS;

#[derive(Clone, Debug)]
struct Ka {
    interval: u64,
    timeout: u64,
    while_idle: bool,
}
#[derive(Clone, Debug)]
struct Ex {
    start: u64,
    req: BodySpec,
    aside: bool,
    srv_gap: u64,
    delay: u64,
    hang: bool,
    resp: BodySpec,
    cli_gap: u64,
}
#[derive(Clone, Debug, Default)]
struct ExLog {
    sent: Option<u64>,
    called: Option<u64>,
    head: Option<u64>,
    /// finished (either way)
    done: Option<u64>,
    ok: bool,
    err: Option<(String, bool, bool)>,
    req_ok: Option<bool>,
    body_id: Option<usize>,
}
#[derive(Default)]
struct St {
    ex: Vec<ExLog>,
    /// (side, time, whether it certainly counts as a received frame)
    ev: Vec<(usize, u64, bool)>,
    started: [Option<u64>; 2],
    ended: [Option<(u64, Result<(), (bool, String)>)>; 2],
    transport_gone: [Option<u64>; 2],
}
type Sh = Rc<RefCell<St>>;

#[derive(Clone, Debug, PartialEq)]
enum F {
    None,
    /// direction, how long: shorter than any timeout
    Stall(usize, u64),
    /// which directions go dark
    Dark([bool; 2]),
    /// which sides cannot write any more
    Stuck([bool; 2]),
    /// a side cannot write for a while
    Blocked(usize, u64),
}

fn span(t: u64) -> u64 {
    match ww(&[4, 2, 2, 1]) {
        0 => 0,
        1 => wr(1, 50) as u64 * MS,
        2 => wr(10, 990) as u64 * t / 1000,
        _ => wr(1000, 4000) as u64 * t / 1000,
    }
}
fn body(id: u32, t: u64, big: bool) -> BodySpec {
    let len = match ww(&[2, 3, if big { 6 } else { 1 }]) {
        0 => 0,
        1 => wr(1, 5_000) as usize,
        _ => wr(50_000, 400_000) as usize,
    };
    let d = content(id, len);
    let mut steps = Vec::new();
    let mut j = 0;
    while j < d.len() {
        if wc(1, 3) {
            steps.push(Step::Pend(span(t).max(1)));
        }
        let m = (wr(1, 60_000) as usize).min(d.len() - j);
        steps.push(Step::Data(bytes::Bytes::copy_from_slice(&d[j..j + m]), 1));
        j += m;
    }
    if wc(1, 6) {
        steps.push(Step::Pend(span(t).max(1)));
    }
    BodySpec { steps, hint: pick(&[Hint::Exact, Hint::Unknown]), eos: wc(1, 2) }
}

async fn read_body(side: usize, mut cb: CheckedBody<hyper::body::Incoming>, gap: u64, sh: &Sh) -> LogRef {
    loop {
        if gap > 0 {
            sleep(gap).await;
        }
        match cb.frame().await {
            Some(Ok(_)) => sh.borrow_mut().ev.push((side, now(), true)),
            Some(Err(_)) => break,
            None => {
                sh.borrow_mut().ev.push((side, now(), false));
                break;
            }
        }
    }
    cb.log.clone()
}

pub fn run_family(_focus: &'static str) {
    let mut k = draw_knobs();
    k.poll_cost = k.poll_cost.min(2_000);
    with(|w| w.knobs = k);
    let ka = |client: bool| {
        if wc(1, 4) {
            None
        } else {
            Some(Ka {
                interval: pick(&[300 * MS, S, S, 5 * S, 20 * S]),
                timeout: pick(&[500 * MS, S, 2 * S, 20 * S]),
                while_idle: !client || wc(1, 2),
            })
        }
    };
    let kas: [Option<Ka>; 2] = [ka(true), ka(false)];
    let adaptive = [wc(1, 4), wc(1, 4)];
    let t = kas.iter().flatten().map(|k| k.interval).min().unwrap_or(S);
    let n = ww(&[1, 3, 3, 2, 1]);
    let exs: Vec<Ex> = (0..n)
        .map(|i| Ex {
            start: match ww(&[3, 2, 2]) {
                0 => 0,
                1 => span(t),
                _ => wr(0, 12_000) as u64 * t / 1000,
            },
            req: if wc(1, 2) { BodySpec::empty() } else { body(i as u32, t, adaptive[1]) },
            aside: wc(1, 3),
            srv_gap: if wc(1, 6) { span(t) / 4 } else { 0 },
            delay: span(t),
            hang: wc(1, 8),
            resp: if wc(1, 4) { BodySpec::empty() } else { body(100 + i as u32, t, adaptive[0]) },
            cli_gap: if wc(1, 6) { span(t) / 4 } else { 0 },
        })
        .collect();
    let min_timeout = kas.iter().flatten().map(|k| k.timeout).min().unwrap_or(S);
    let fault = match ww(&[4, 3, 4, 2, 3]) {
        0 => F::None,
        1 => F::Stall(wd(2) as usize, wr(50, 780) as u64 * min_timeout / 1000),
        2 => F::Dark(pick(&[[true, true], [true, false], [false, true]])),
        3 => F::Stuck(pick(&[[true, false], [false, true], [true, true]])),
        _ => F::Blocked(wd(2) as usize, wr(50, 780) as u64 * min_timeout / 1000),
    };
    let fault_at = match ww(&[2, 3]) {
        0 => span(t),
        _ => wr(0, 10_000) as u64 * t / 1000,
    };
    let io = || {
        let mut k = draw_io();
        k.latency = pick(&[0, 0, 50_000, MS]);
        k.cap = pick(&[1 << 20, 1 << 20, 65_536]);
        k.rst_on_drop = false;
        k.linger = true;
        k.read_mode = pick(&[0, 0, 3]);
        k.write_mode = pick(&[0, 0, 3]);
        k
    };
    let (k0, k1) = (io(), io());
    let (cs, ss) = connect("kal", k0, k1);
    let conn = cs.conn;
    with(|w| w.net.conns[conn].watch = [false, false]);
    for d in 0..2 {
        net::dir(conn, d, |x| x.log_writes = true);
    }
    tr(|| format!("kal client {:?} server {:?} adaptive {adaptive:?} fault {fault:?} at {} us", kas[0], kas[1], fault_at / 1000));
    for e in &exs {
        tr(|| format!("  {e:?}"));
    }
    let sh: Sh = Rc::default();
    sh.borrow_mut().ex = vec![ExLog::default(); n];
    let exs = Rc::new(exs);

    // the server
    let (sh2, ex2) = (sh.clone(), exs.clone());
    let svc = hyper::service::service_fn(move |req: http::Request<hyper::body::Incoming>| {
        let (sh, exs) = (sh2.clone(), ex2.clone());
        let i = crate::f_h2p::path_index(req.uri().path());
        tr(|| format!("  service called for {i}"));
        {
            let mut s = sh.borrow_mut();
            s.ev.push((1, now(), true));
            s.ex[i].called = Some(now());
        }
        let fut = async move {
            let p = exs[i].clone();
            let cb = CheckedBody::new_h2(req.into_body(), format!("req{i}"));
            let want = p.req.data();
            let (sh2, gap) = (sh.clone(), p.srv_gap);
            let rd = async move {
                let l = read_body(1, cb, gap, &sh2).await;
                let l = l.borrow();
                sh2.borrow_mut().ex[i].req_ok = Some(l.clean() && l.data == want);
                if l.clean() && l.data != want {
                    violate("body-changed", format!("request body {i}: {} of {} bytes", l.data.len(), want.len()));
                }
            };
            if p.aside {
                spawn_in(7, "reader", rd);
            } else {
                rd.await;
            }
            if p.delay > 0 {
                sleep(p.delay).await;
            }
            if p.hang {
                forever().await;
            }
            Ok::<_, SimErr>(http::Response::new(p.resp.build(format!("resp{i}"))))
        };
        Box::pin(fut) as std::pin::Pin<Box<dyn std::future::Future<Output = _>>>
    });
    let mut b = hyper::server::conn::http2::Builder::new(SimExec(5, "server-exec"));
    b.timer(SimTimer).adaptive_window(adaptive[1]);
    if let Some(k) = &kas[1] {
        b.keep_alive_interval(Duration::from_nanos(k.interval)).keep_alive_timeout(Duration::from_nanos(k.timeout));
    }
    let c = b.serve_connection(ss, svc);
    let s2 = sh.clone();
    spawn_in(4, "server", async move {
        let r = c.await;
        tr(|| format!("  server result {r:?}"));
        s2.borrow_mut().ended[1] = Some((now(), r.map_err(|e| (flags(&e).timeout, format!("{e:?}")))));
    });

    // the client
    let slot: Rc<RefCell<Option<Handle>>> = Rc::default();
    let up = Gate::new();
    let (slot2, up2, s2) = (slot.clone(), up.clone(), sh.clone());
    let k = kas[0].clone();
    spawn_in(1, "client", async move {
        let mut b = hyper::client::conn::http2::Builder::new(SimExec(3, "client-exec"));
        b.timer(SimTimer).adaptive_window(adaptive[0]);
        if let Some(k) = &k {
            b.keep_alive_interval(Duration::from_nanos(k.interval)).keep_alive_timeout(Duration::from_nanos(k.timeout)).keep_alive_while_idle(k.while_idle);
        }
        let (h, conn) = match b.handshake(cs).await {
            Ok(x) => x,
            Err(e) => {
                violate("handshake", format!("{e:?}"));
                return;
            }
        };
        *slot2.borrow_mut() = Some(h);
        s2.borrow_mut().started[0] = Some(now());
        up2.open();
        let r = conn.await;
        tr(|| format!("  client result {r:?}"));
        s2.borrow_mut().ended[0] = Some((now(), r.map_err(|e| (flags(&e).timeout, format!("{e:?}")))));
    });
    for i in 0..n {
        let (sh, exs, slot, up) = (sh.clone(), exs.clone(), slot.clone(), up.clone());
        spawn_in(2, format!("caller{i}"), async move {
            let p = exs[i].clone();
            up.wait().await;
            if p.start > 0 {
                sleep(p.start).await;
            }
            let Some(mut h) = slot.borrow().clone() else { return };
            let b = p.req.build(format!("req{i}"));
            let id = b.id;
            let mut q = http::Request::new(b);
            *q.method_mut() = http::Method::POST;
            *q.uri_mut() = format!("http://a/r{i}").parse().unwrap();
            {
                let mut s = sh.borrow_mut();
                s.ex[i].sent = Some(now());
                s.ex[i].body_id = Some(id);
            }
            tr(|| format!("  caller submits {i}"));
            let f = h.send_request(q);
            drop(h);
            match f.await {
                Ok(p2) => {
                    {
                        let mut s = sh.borrow_mut();
                        s.ev.push((0, now(), true));
                        s.ex[i].head = Some(now());
                    }
                    let cb = CheckedBody::new_h2(p2.into_body(), format!("resp{i}"));
                    let l = read_body(0, cb, p.cli_gap, &sh).await;
                    let l = l.borrow();
                    let want = p.resp.data();
                    let mut s = sh.borrow_mut();
                    s.ex[i].ok = l.clean() && l.data == want;
                    if l.clean() && l.data != want {
                        violate("body-changed", format!("response body {i}: {} of {} bytes", l.data.len(), want.len()));
                    }
                    if !l.clean() {
                        s.ex[i].err = Some((format!("{:?}", l.end), false, false));
                    }
                }
                Err(e) => {
                    tr(|| format!("  caller {i} gets {e:?}"));
                    let f = flags(&e);
                    sh.borrow_mut().ex[i].err = Some((format!("{e:?}"), f.timeout, f.canceled));
                }
            }
            sh.borrow_mut().ex[i].done = Some(now());
        });
    }
    // the fault
    let f2 = fault.clone();
    let (up2, fault_gap) = (up.clone(), fault_at);
    let fault_at: Rc<std::cell::Cell<u64>> = Rc::new(std::cell::Cell::new(u64::MAX));
    let fa = fault_at.clone();
    spawn_in(8, "fault", async move {
        up2.wait().await;
        crate::f_h2p::settled(conn).await;
        while !net::dir(conn, 1, |x| frames(&x.written, 0).iter().any(|f| f.kind == 4 && f.flags & 1 == 1)) {
            sleep(100_000).await;
        }
        sleep(fault_gap).await;
        fa.set(now());
        match f2 {
            F::None => {}
            F::Stall(d, t) => net::stall_now(conn, d, t),
            F::Dark(d) => {
                for i in 0..2 {
                    if d[i] {
                        net::blackhole_now(conn, i);
                    }
                }
            }
            F::Stuck(d) => {
                for i in 0..2 {
                    if d[i] {
                        count("write_blocked");
                        net::block_writes(conn, i);
                    }
                }
            }
            F::Blocked(d, t) => {
                count("write_blocked");
                net::block_writes(conn, d);
                sleep(t).await;
                net::unblock_writes(conn, d);
            }
        }
    });
    let quiet = kas.iter().flatten().map(|k| 2 * k.interval + k.timeout).max().unwrap_or(5 * S) + 5 * S;
    // until every exchange that can end has ended, and for a while after it
    let mut last = None;
    let sh2 = sh.clone();
    let ex2 = exs.clone();
    let end = run(Limits { max_steps: 300_000, horizon: 2000 * S }, || {
        let s = sh2.borrow();
        if s.started[0].is_none() || now() < fault_at.get() {
            return false;
        }
        let open = s.ex.iter().zip(ex2.iter()).any(|(l, e)| (l.done.is_none() && !(e.hang && l.called.is_some()) || l.called.is_some() && l.req_ok.is_none()));
        if open && !matches!(fault, F::Dark(_) | F::Stuck(_)) {
            last = None;
            return false;
        }
        // (under a lasting fault nothing more may be expected to end)
        let seen = s.ev.len() + s.ended.iter().flatten().count() + s.ex.iter().filter(|e| e.done.is_some()).count();
        match last {
            Some((n, t)) if n == seen => now() > t + quiet,
            _ => {
                last = Some((seen, now()));
                false
            }
        }
    });
    if violated() {
        return;
    }
    if end == End::Steps {
        violate("livelock", "step limit reached".into());
        return;
    }
    let stop_at = now();
    judge(&sh.borrow(), &exs, &kas, adaptive, &fault, fault_at.get(), conn, stop_at);
    if violated() {
        return;
    }
    // without a lasting fault the connection still ends in an orderly way
    let hung = exs.iter().any(|e| e.hang);
    if matches!(fault, F::None | F::Stall(..) | F::Blocked(..)) && !hung {
        slot.borrow_mut().take();
        let sh2 = sh.clone();
        run(Limits { max_steps: 100_000, horizon: 100 * S }, || sh2.borrow().ended.iter().all(|e| e.is_some()));
        let s = sh.borrow();
        for (i, n) in ["client", "server"].iter().enumerate() {
            match &s.ended[i] {
                Some((_, Ok(()))) => {}
                other => {
                    violate("not-ended", format!("{n} after its handles were dropped: {other:?}"));
                    return;
                }
            }
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn judge(s: &St, exs: &[Ex], kas: &[Option<Ka>; 2], adaptive: [bool; 2], fault: &F, fault_at: u64, conn: usize, stop_at: u64) {
    let lasting = matches!(fault, F::Dark(_) | F::Stuck(_));
    let logs: Vec<(Vec<(u64, usize)>, Vec<u8>)> = (0..2).map(|d| net::dir(conn, d, |x| (x.write_log.clone(), x.written.clone()))).collect();
    // PINGs of each side: (time, answered)
    let mut pings: [Vec<u64>; 2] = Default::default();
    for d in 0..2 {
        let fs = frames(&logs[d].1, if d == 0 { PREFACE.len() } else { 0 });
        tell_frames(&fs, &logs[d].1, if d == 0 { "client" } else { "server" });
        for f in fs.iter().filter(|f| f.kind == 6 && f.flags & 1 == 0) {
            let end = f.off + f.len;
            if let Some(x) = logs[d].0.iter().find(|x| x.1 >= end) {
                pings[d].push(x.0);
            }
        }
        add(if d == 0 { "client_pings" } else { "server_pings" }, pings[d].len() as u64);
    }
    let names = ["client", "server"];
    if !lasting {
        for d in 0..2 {
            if let Some((t, r)) = &s.ended[d] {
                violate("ended-answering-peer", format!("{} ended at {} us with {r:?}", names[d], t / 1000));
                return;
            }
        }
        for (i, (l, e)) in s.ex.iter().zip(exs).enumerate() {
            let fine = if e.hang { l.err.is_none() && l.called.is_some() } else { l.ok && l.req_ok == Some(true) };
            if !fine {
                violate("exchange", format!("exchange {i} without a lasting fault: {l:?}"));
                return;
            }
        }
    }
    let gone = |d: usize| with(|w| Some(w.net.conns[conn].dropped_at[d]).filter(|x| *x < u64::MAX));
    let dark = match fault {
        F::Dark(d) | F::Stuck(d) => *d,
        _ => [false, false],
    };
    // `done` of an exchange, as far as the client's interest in it goes
    let over = |l: &ExLog| -> Option<u64> {
        let d = l.done?;
        let b = l.body_id.map(|i| with(|w| (w.bodies[i].dropped, w.bodies[i].dropped_at)));
        match b {
            Some((false, _)) => None,
            Some((true, t)) => Some(d.max(t)),
            None => Some(d),
        }
    };
    for d in 0..2 {
        // without the option: no probes, no end
        let Some(k) = &kas[d] else {
            if !adaptive[d] && !pings[d].is_empty() {
                violate("ping-unasked", format!("{} sent {} PINGs", names[d], pings[d].len()));
                return;
            }
            if let Some((t, r)) = &s.ended[d] {
                // the other side may have ended it
                let other = gone(1 - d);
                if other.map_or(true, |o| o > *t) || dark[1 - d] && matches!(fault, F::Dark(_)) {
                    violate("ended-by-silence", format!("{} has no keep-alive but ended at {} us with {r:?}", names[d], t / 1000));
                    return;
                }
            }
            continue;
        };
        let start = s.started[0].unwrap();
        // nothing probes before its time
        let calm_writes = !matches!(fault, F::Stuck(_) | F::Blocked(..));
        if !adaptive[d] && calm_writes {
            let mut prev = None;
            for &p in &pings[d] {
                let last = s.ev.iter().filter(|e| e.0 == d && e.2 && e.1 + MS < p).map(|e| e.1).max();
                let from = [last, prev, Some(if d == 0 { start } else { 0 })].into_iter().flatten().max().unwrap();
                if p + MS < from + k.interval {
                    violate("early-ping", format!("{} probed at {} us, after activity at {} us, interval {} us", names[d], p / 1000, from / 1000, k.interval / 1000));
                    return;
                }
                if !k.while_idle && !s.ex.iter().any(|l| l.sent.is_some_and(|a| a <= p + MS) && over(l).map_or(true, |b| p <= b + SLACK)) {
                    violate("idle-ping", format!("{} probed at {} us while idle", names[d], p / 1000));
                    return;
                }
                prev = Some(p);
            }
        }
        // while something is open, silence is probed in time
        let mut act: Vec<u64> = s.ev.iter().filter(|e| e.0 == d).map(|e| e.1).chain(pings[d].iter().copied()).collect();
        act.push(start);
        act.sort();
        let until = s.ended[d].as_ref().map(|x| x.0).unwrap_or(stop_at);
        let windows: Vec<(u64, u64)> = if k.while_idle {
            vec![(start, until)]
        } else {
            // (the client certainly cares from the moment the server has it)
            s.ex.iter().filter_map(|l| l.called.map(|a| (a, l.done.unwrap_or(until).min(until)))).collect()
        };
        if matches!(fault, F::None) {
            for &(a, b) in &windows {
                for (i, &x) in act.iter().enumerate() {
                    let y = act.get(i + 1).copied().unwrap_or(u64::MAX).min(b);
                    let x = x.max(a);
                    if y > x && y - x > k.interval + SLACK {
                        violate("no-ping", format!("{} saw nothing from {} to {} us and did not probe (interval {} us)", names[d], x / 1000, y / 1000, k.interval / 1000));
                        return;
                    }
                }
            }
        }
        // a peer that stays silent is given up in time
        if lasting && (dark[0] || dark[1]) {
            // an answer to a probe can no longer arrive
            count("silent_peers");
            let last_ev = s.ev.iter().filter(|e| e.0 == d).map(|e| e.1).max().unwrap_or(0);
            let quiet_from = last_ev.max(fault_at).max(start);
            for &(a, b) in &windows {
                let due = quiet_from.max(a) + k.interval + k.timeout + 2 * SLACK + k.interval.min(SLACK);
                // (one probe may have been answered just before)
                if b > due && stop_at > due {
                    violate("silent-peer-kept", format!("{} was not ended by {} us: {:?} (last activity {} us, fault at {} us, interval {} timeout {} us)", names[d], due / 1000, s.ended[d], last_ev / 1000, fault_at / 1000, k.interval / 1000, k.timeout / 1000));
                    return;
                }
            }
            if let Some((t, r)) = &s.ended[d] {
                count("ended_by_timeout");
                let other = gone(1 - d);
                let own = other.map_or(true, |o| o > *t);
                if own || dark[1 - d] && matches!(fault, F::Dark(_)) {
                    // its own doing: after a probe and the full timeout
                    if calm_writes && !pings[d].iter().any(|p| p + k.timeout <= *t + MS) {
                        violate("ended-without-probe", format!("{} ended at {} us with {r:?}, PINGs at {:?}", names[d], t / 1000, pings[d].iter().map(|p| p / 1000).collect::<Vec<_>>()));
                        return;
                    }
                    let want = if d == 0 { r.is_ok() || matches!(r, Err((true, _))) } else { matches!(r, Err((true, _))) };
                    if !want {
                        violate("timeout-result", format!("{} ended with {r:?}", names[d]));
                        return;
                    }
                    if d == 0 {
                        for (i, l) in s.ex.iter().enumerate() {
                            let Some(sent) = l.sent else { continue };
                            if sent >= *t {
                                continue;
                            }
                            match (&l.err, l.head, l.done) {
                                (_, _, None) => {
                                    violate("exchange-left", format!("exchange {i} still waits after the client ended: {l:?}"));
                                    return;
                                }
                                (Some((e, timeout, _)), None, _) if !timeout => {
                                    violate("wrong-error", format!("exchange {i} pending at the timeout failed with {e}"));
                                    return;
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
        }
    }
}
