//! Family h2c: a real hyper HTTP/2 client against a raw server that writes
//! its own frames: valid responses in every framing the protocol allows,
//! interim ones, malformed ones, resets, GOAWAYs, changing settings, and
//! violations that end the connection.
use crate::body::*;
use crate::core::*;
use crate::f_h1c::{Out, Res};
use crate::f_h1s::{released, ReadPlan};
use crate::f_h2p::{self, check_settings, client_builder, draw_side, gen_req, gen_resp, h2_body, HReq, Handle, Mode, SRead, Sh, Side};
use crate::f_h2s::offence;
use crate::gen::*;
use crate::h1ref::*;
use crate::h2raw::*;
use crate::hpack::Field;
use crate::net::{self, *};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
enum Kind {
    Good,
    /// answers at once and resets with NO_ERROR, asking for no more of the request
    Early,
    Reset { code: u32, head: bool, after: usize },
    BadHead(&'static str),
    BadBody(&'static str),
    Oversize,
    Hang,
    /// head and a part of the body, then nothing
    Stall { after: usize },
}
#[derive(Clone, Debug, PartialEq)]
enum When {
    Head,
    Data(usize),
    End,
}
#[derive(Clone, Debug)]
struct SPlan {
    kind: Kind,
    when: When,
    interims: Vec<Vec<Field>>,
    status: u16,
    hdrs: HMap,
    cl: Option<u64>,
    data: Vec<u8>,
    trailers: Hdrs,
    delay: u64,
    pause: u64,
    noise: bool,
}
impl SPlan {
    fn fields(&self) -> Vec<Field> {
        let mut f = vec![field(":status", self.status.to_string().as_bytes())];
        f.extend(hdr_fields(&self.hdrs));
        if let Some(n) = self.cl {
            f.push(field("content-length", n.to_string().as_bytes()));
        }
        f
    }
}
fn hdr_fields(h: &HMap) -> Vec<Field> {
    h.iter().flat_map(|(k, vs)| vs.iter().map(move |v| (k.as_bytes().to_vec(), v.clone()))).collect()
}

fn plan(i: usize, r: &HReq, focus: &str, max: usize, mcs: bool, side: &Side) -> SPlan {
    let resp = gen_resp(i, r, max, focus, 0);
    let mut hdrs = f_h2p::stripped(&resp.hdrs, false);
    hdrs.remove("content-length");
    let bodiless = r.method == "HEAD" || resp.status == 204 || resp.status == 304;
    let data = if bodiless { vec![] } else { resp.body.data() };
    let trailers: Hdrs = match resp.body.trailers() {
        Some(t) if !bodiless => t.iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect(),
        _ => vec![],
    };
    let cl = match () {
        _ if r.method == "HEAD" => if wc(1, 2) { Some(wd(5000) as u64) } else { None },
        _ if resp.status == 204 => None,
        _ if resp.status == 304 => if wc(1, 4) { Some(wd(5000) as u64) } else { None },
        _ => if wc(1, 2) { Some(data.len() as u64) } else { None },
    };
    let mut p = SPlan {
        kind: Kind::Good,
        when: match ww(&[4, 1, 2]) {
            0 => When::End,
            1 => When::Data(wd(r.body.len() as u32 + 1) as usize),
            _ => When::Head,
        },
        interims: vec![],
        status: resp.status,
        hdrs,
        cl,
        data,
        trailers,
        delay: if wc(1, 2) { wr(0, 4000) as u64 * 1000 } else { 0 },
        pause: if wc(1, 4) { wr(1, 3000) as u64 * 1000 } else { 0 },
        noise: wc(1, 4),
    };
    if wc(1, 4) {
        for _ in 0..wr(1, 3) {
            let mut f = vec![field(":status", pick(&[&b"100"[..], b"102", b"103", b"199"]))];
            f.extend(plain_headers(3).into_iter().map(|(k, v)| (k.into_bytes(), v)));
            p.interims.push(f);
        }
    }
    let n = p.data.len() as u32;
    let quits = matches!(r.read, ReadPlan::Drop | ReadPlan::Frames(_));
    let w: &[u32] = match focus {
        "C15" | "C16" => &[20, 1, 1, 1, 0, 0, 0, 0],
        "C17" => &[8, 1, 1, 1, 1, 5, 0, 0],
        "C05" => &[5, 1, 5, 1, 4, 0, 1, 3],
        "C06" => &[8, 2, 2, 0, 0, 0, 1, 0],
        _ => &[8, 1, 3, 2, 2, 1, 1, 2],
    };
    match ww(w) {
        1 => {
            p.kind = Kind::Early;
            p.when = if wc(1, 2) { When::Head } else { p.when };
        }
        2 => {
            let head = wc(1, 2);
            p.kind = Kind::Reset { code: pick(&[8u32, 7, 0, 2, 1, 5, 11, 13, 0x77]), head, after: if head { wd(n + 1) as usize } else { 0 } };
        }
        3 => {
            let w = bad_head(&mut p);
            p.kind = Kind::BadHead(w);
        }
        4 if !bodiless => {
            if p.data.is_empty() {
                p.data = content(i as u32, wr(1, 3000) as usize).into_iter().take(max.max(1)).collect();
            }
            let n = p.data.len();
            let (what, cl) = match wd(3) {
                0 => ("too-long", n - 1 - wd(n as u32).min(20) as usize),
                1 => ("too-short", n + wr(1, 30) as usize),
                _ => ("much-too-short", n + 100_000),
            };
            p.cl = Some(cl as u64);
            p.kind = Kind::BadBody(what);
        }
        5 => {
            let lim = side.hls.unwrap_or(16_384) as usize;
            let n = lim + wr(200, 3000) as usize;
            let k = wr(1, 5) as usize;
            for j in 0..k {
                p.hdrs.insert(format!("x-big-{j}"), vec![vec![b'b'; n / k + 1]]);
            }
            p.kind = Kind::Oversize;
        }
        6 if !mcs || r.cancel.is_some() => p.kind = Kind::Hang,
        7 if !bodiless && (!mcs || quits) => p.kind = Kind::Stall { after: wd(n + 1) as usize },
        _ => {}
    }
    p
}
/// The fields of a head that no client may accept.
fn bad_head(p: &mut SPlan) -> &'static str {
    let v = |s: &[u8]| vec![s.to_vec()];
    match wd(7) {
        0 => "no-status",
        1 => "status-twice",
        2 => "status-late",
        3 => {
            p.hdrs.insert("connection".into(), v(b"close"));
            "connection"
        }
        4 => {
            p.hdrs.insert("transfer-encoding".into(), v(b"chunked"));
            "transfer-encoding"
        }
        5 => {
            p.hdrs.insert("keep-alive".into(), v(b"5"));
            "keep-alive"
        }
        _ => {
            p.cl = None;
            p.hdrs.insert("content-length".into(), v(pick(&[&b"abc"[..], b"-1", b"99999999999999999999999"])));
            "content-length-text"
        }
    }
}
fn spoil(what: &str, f: &mut Vec<Field>) {
    match what {
        "no-status" => {
            f.remove(0);
        }
        "status-twice" => f.insert(0, field(":status", b"200")),
        "status-late" => {
            let s = f.remove(0);
            f.push(field("x-before", b"1"));
            f.push(s);
        }
        _ => {}
    }
}

struct Ctx {
    reqs: Vec<HReq>,
    plans: Vec<SPlan>,
    sh: Sh,
    side: Side,
    conn: usize,
    offended: &'static str,
    abrupt: bool,
    mangle: bool,
    peer: Peer,
    goaway: Option<(u32, u32)>,
    /// requests that were to be submitted
    count: usize,
    small_mcs: bool,
    kept: bool,
}

pub fn run_family(focus: &'static str) {
    draw_knobs();
    let mut side = draw_side(focus, true);
    if wc(1, 3) {
        side.imss = Some(pick(&[1usize, 2, 100]));
    }
    let n = match ww(&[2, 4, 3]) {
        0 => 1,
        1 => wr(2, 4),
        _ => wr(5, 9),
    } as usize;
    let window = pick(&[65_535u32, 65_535, 1 << 20, 100, 1, 5_000]);
    let fmax = pick(&[16_384usize, 16_384, 20_000, 100_000]);
    let mcs = if wc(1, 3) || focus == "C17" && wc(1, 2) { Some(pick(&[1u32, 2, 3])) } else { None };
    let small = side.stream_window().min(window) as usize;
    let max = (small.min(side.send_buf.unwrap_or(1 << 20).max(50)) * 150).max(300);
    let fail = match focus {
        "C06" => 2,
        "C23" => 5,
        "C05" | "C07" | "C18" | "C22" => 12,
        _ => 0,
    };
    let mut reqs: Vec<HReq> = (0..n).map(|i| gen_req(i, max, focus, fail)).collect();
    let plans: Vec<SPlan> = reqs.iter().enumerate().map(|(i, r)| plan(i, r, focus, max, mcs.is_some() || side.imss.is_some(), &side)).collect();
    for (r, p) in reqs.iter_mut().zip(&plans) {
        // (an abandoned response leaves the upload running: see DESIGN.md)
        if matches!(p.kind, Kind::Stall { .. }) && matches!(r.read, ReadPlan::Hold(_)) {
            r.read = ReadPlan::Drop;
        }
    }
    let offends = match focus {
        "C18" => wc(1, 2),
        "C23" | "C05" | "C07" => wc(1, 8),
        _ => false,
    };
    let abrupt = matches!(focus, "C18" | "C05" | "C22" | "C07") && !offends && wc(1, 2);
    let mangle = focus == "C18" && !offends && !abrupt && wc(1, 2);
    let goes_away = !offends && !mangle && matches!(focus, "C07" | "C22" | "C05" | "C18") && wc(1, 3);
    let total: usize = reqs.iter().map(|r| r.body.len() as usize).chain(plans.iter().map(|p| p.data.len())).sum();
    let policy = Policy {
        batch: pick(&[1i64, 1, 1000, 20_000]),
        delay: pick(&[0u64, 0, 100_000, 3_000_000]),
        ack_settings_after: if side.stream_window() < 65_535 || side.adaptive || total > 60_000 { 0 } else { pick(&[0u64, 0, 0, 2_000_000]) },
    };
    let (mut k0, mut k1) = (draw_io(), draw_io());
    for k in [&mut k0, &mut k1] {
        k.cap = k.cap.max(4096);
        k.latency = k.latency.min(500_000);
        k.rst_on_drop = false;
        k.linger = true;
        k.buffered = false;
    }
    let seq = wc(1, 5);
    let keep_handle = wc(1, 2);
    let end_kind = wd(4);
    tr(|| format!("h2c n={n} side {side:?} window {window} frame {fmax} mcs {mcs:?} offends {offends} abrupt {abrupt} mangle {mangle} goaway {goes_away} seq {seq} keep {keep_handle} end {end_kind}"));
    for (i, p) in plans.iter().enumerate() {
        let r = &reqs[i];
        tr(|| format!("  r{i}: {} {} body {:?} cancel {:?} read {:?} gap {} | {:?} at {:?} {} cl {:?} data {} trailers {} interims {} delay {} pause {}", r.method, r.path, r.body, r.cancel, r.read, r.gap, p.kind, p.when, p.status, p.cl, p.data.len(), p.trailers.len(), p.interims.len(), p.delay, p.pause));
    }
    let (cs, ss) = connect("h2c", k0, k1);
    let conn = cs.conn;
    with(|w| w.net.conns[conn].watch[1] = false);
    let sh: Sh = Rc::default();
    // the last one is the probe
    let mut all = reqs.clone();
    let mut probe = gen_req(n, max, "C15", 0);
    probe.path = format!("/r{n}");
    probe.read = ReadPlan::All;
    probe.gap = 0;
    all.push(probe);
    let mut plans = plans;
    let mut pp = plan(n, &all[n], "C15", max, true, &side);
    if pp.kind != Kind::Good {
        pp.kind = Kind::Good;
        pp.cl = None;
        pp.hdrs = HMap::new();
    }
    plans.push(pp);
    sh.borrow_mut().outs = vec![Out::default(); n + 1];
    // -- the raw server
    let peer = Peer::new(ss, false, window, fmax, 4096, policy);
    if mangle {
        peer.st.borrow_mut().lenient = true;
        let (tot, kinds) = (plans.iter().map(|p| p.data.len() + 150).sum::<usize>() as u32, wr(1, 3));
        let v: Vec<(usize, u8)> = (0..kinds).map(|_| (wd(tot + 50) as usize, if wc(1, 2) { 1u8 << wd(8) } else { wd(255) as u8 + 1 })).collect();
        net::dir(conn, 1, |d| d.mangle = v);
    }
    let mut list = vec![(4u16, window), (5, fmax as u32)];
    if let Some(m) = mcs {
        list.push((3, m));
    }
    if wc(1, 3) {
        list.push((1, pick(&[0u32, 100, 4096])));
    }
    if wc(1, 6) {
        list.push((0x99, 7));
    }
    let open_late = if wc(1, 4) { wr(1, 3000) as u64 * 1000 } else { 0 };
    peer.spawn();
    {
        let (p2, mcs) = (peer.clone(), mcs);
        spawn_in(8, "raw-opener", async move {
            sleep(open_late).await;
            if let Some(m) = mcs {
                p2.st.borrow_mut().mcs_sent.push(m);
            }
            p2.open(&list);
        });
    }
    let goaway: Rc<Cell<Option<(u32, u32)>>> = Rc::default();
    let closing: Rc<Cell<bool>> = Rc::default();
    {
        let (p2, plans2, all2) = (peer.clone(), plans.clone(), all.clone());
        let ga = goaway.clone();
        spawn_in(8, "raw-server", async move {
            let mut next = 1u32;
            loop {
                // every stream in turn
                if !p2.until(|s| s.streams.get(&next).is_some_and(|x| !x.heads.is_empty())).await {
                    return;
                }
                let sid = next;
                next += 2;
                let path = {
                    let s = p2.st.borrow();
                    let h = &s.streams[&sid].heads[0].0;
                    h.iter().find(|f| f.0 == b":path").map(|f| String::from_utf8_lossy(&f.1).to_string()).unwrap_or_default()
                };
                let i = f_h2p::path_index(&path);
                note(0x5e00 + i as u64);
                let Some(plan) = plans2.get(i).cloned() else {
                    violate("unknown-request", format!("stream {sid}: {path}"));
                    return;
                };
                let p3 = p2.clone();
                let ga = ga.clone();
                let rlen = all2[i].body.len();
                spawn_in(8, format!("script{i}"), async move {
                    answer(&p3, sid, plan, rlen, ga).await;
                });
            }
        });
    }
    // -- the client
    let slot: Rc<RefCell<Option<Handle>>> = Rc::default();
    let up = Gate::new();
    let b = client_builder(&side);
    let (sh2, slot2, up2) = (sh.clone(), slot.clone(), up.clone());
    let client_task = spawn_in(1, "client", async move {
        let r = match b.handshake::<_, SimBody>(cs).await {
            Ok((sr, c)) => {
                *slot2.borrow_mut() = Some(sr);
                up2.open();
                c.await
            }
            Err(e) => {
                up2.open();
                Err(e)
            }
        };
        tr(|| format!("  client result {r:?}"));
        sh2.borrow_mut().client_result = Some(r.map_err(|e| format!("{e:?}")));
    });
    if abrupt {
        let dirn = wd(2) as usize;
        let at = if wc(1, 2) { wd(total as u32 + 300) } else { wd(600) };
        plan_fault(conn, dirn, at as u64, pick(if dirn == 1 { &[Fault::Eof, Fault::Reset, Fault::ReadErr] } else { &[Fault::Eof, Fault::Reset, Fault::WriteErr] }));
        net::arm(conn);
    }
    let (gate, pgate) = (Gate::new(), Gate::new());
    let do_probe: Rc<Cell<bool>> = Rc::default();
    let small_recv = window < 22_000 || side.stream_window() < 22_000;
    let (sh3, g2, pg2, dp2, all2) = (sh.clone(), gate.clone(), pgate.clone(), do_probe.clone(), all.clone());
    let wait = wc(1, 2) || small_recv || mcs.is_some();
    let p4 = peer.clone();
    let caller = spawn_in(2, "caller", async move {
        up.wait().await;
        let Some(mut sr) = slot.borrow_mut().take() else { return };
        if wait {
            p4.until(|s| s.acks > 0).await;
        }
        for (i, r) in all2.iter().enumerate() {
            if i == n {
                if !keep_handle {
                    break;
                }
                pg2.wait().await;
                if !dp2.get() {
                    break;
                }
            }
            sleep(r.gap).await;
            if r.ready {
                let x = sr.ready().await;
                sh3.borrow_mut().outs[i].ready_ok = x.is_ok();
                sh3.borrow_mut().outs[i].ready_err = x.is_err();
            }
            let f = if r.cloned {
                let mut s2 = sr.clone();
                f_h2p::submit(&mut s2, i, r, &sh3)
            } else {
                f_h2p::submit(&mut sr, i, r, &sh3)
            };
            let o = f_h2p::outcome(i, r.clone(), f, sh3.clone());
            if seq {
                o.await;
            } else {
                spawn_in(2, format!("outcome{i}"), o);
            }
        }
        if keep_handle {
            g2.wait().await;
        }
        drop(sr);
        tr(|| "  handle dropped".into());
    });
    if wc(1, 5) {
        let (p2, d, t) = (peer.clone(), wr(0, 4000) as u64 * 1000, wr(1, 50) as u64 * MS);
        spawn_in(8, "pauser", async move {
            sleep(d).await;
            p2.pause(true);
            sleep(t).await;
            p2.pause(false);
        });
    }
    if wc(1, 3) && !mangle {
        // settings change on the way
        let (p2, d, w, m) = (peer.clone(), wr(0, 6000) as u64 * 1000, pick(&[0u32, 1, 1000, 65_535, 200_000]), wc(1, 3));
        let w = if w == 1 && total > 20_000 { 1000 } else { w };
        let m2 = pick(&[0u32, 1, 2, 50]);
        spawn_in(8, "resettler", async move {
            p2.until(|s| s.acks > 0).await;
            sleep(d).await;
            let over = |p: &Peer| p.st.borrow().offended || p.st.borrow().closed;
            if over(&p2) {
                return;
            }
            if m {
                p2.st.borrow_mut().mcs_sent.push(m2);
                p2.settings(&[(3, m2), (4, w)]);
            } else {
                p2.settings(&[(4, w)]);
            }
            sleep(20 * MS).await;
            if over(&p2) {
                return;
            }
            if w < 1000 {
                p2.settings(&[(4, 50_000)]);
            }
            if m {
                let x = mcs.unwrap_or(100);
                p2.st.borrow_mut().mcs_sent.push(x);
                p2.settings(&[(3, x)]);
            }
        });
    }
    let off_name: Rc<Cell<&'static str>> = Rc::default();
    if offends {
        let (p2, d, on, sh2) = (peer.clone(), wd(8000) as u64 * 1000, off_name.clone(), sh.clone());
        spawn_in(8, "offender", async move {
            p2.until(|s| s.acks > 0).await;
            sleep(d).await;
            if sh2.borrow().client_result.is_some() || p2.st.borrow().closed || p2.st.borrow().eof {
                return;
            }
            p2.st.borrow_mut().offended = true;
            let next = 1 + 2 * (n as u32 + 1);
            let w = offence(&p2, next);
            tr(|| format!("  raw offends: {w}"));
            count("protocol_violations");
            on.set(w);
        });
    }
    if goes_away {
        let (p2, d, ga) = (peer.clone(), wd(9000) as u64 * 1000, goaway.clone());
        let code = if wc(1, 4) { pick(&[1u32, 2, 11]) } else { 0 };
        let (two, cut) = (wc(1, 3), wc(1, 3));
        let closing = closing.clone();
        spawn_in(8, "goaway", async move {
            p2.until(|s| s.acks > 0).await;
            sleep(d).await;
            if closing.get() || p2.st.borrow().closed {
                return;
            }
            if two {
                let mut b = 0x7fff_ffffu32.to_be_bytes().to_vec();
                b.extend_from_slice(&code.to_be_bytes());
                p2.send(GOAWAY, 0, 0, &b);
                ga.set(Some((0x7fff_ffff, code)));
                sleep(d / 3).await;
                if closing.get() || p2.st.borrow().closed {
                    return;
                }
            }
            let top = {
                let s = p2.st.borrow();
                let mut top = s.streams.keys().last().copied().unwrap_or(0);
                if cut && top > 1 {
                    // some that came are not going to be looked at; but what
                    // was answered cannot be taken back
                    let answered = s.streams.iter().filter(|(_, x)| x.touched || x.we_ended || x.we_reset).map(|x| *x.0).last().unwrap_or(0);
                    top = answered.max(top - 2);
                }
                top
            };
            let mut b = top.to_be_bytes().to_vec();
            b.extend_from_slice(&code.to_be_bytes());
            ga.set(Some((top, code)));
            count("goaways_sent");
            p2.send(GOAWAY, 0, 0, &b);
        });
    }
    let lim = || Limits { max_steps: 800_000, horizon: 3600 * SEC };
    let end = run(lim(), || false);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 1 ended with {end:?}"));
        return;
    }
    let offended = off_name.get();
    let mut c = Ctx { reqs: all, plans, sh: sh.clone(), side, conn, offended, abrupt, mangle, peer: peer.clone(), goaway: goaway.get(), count: n, small_mcs: mcs.is_some(), kept: keep_handle };
    judge(&c, true);
    if violated() {
        return;
    }
    // -- a further exchange on what is left
    if keep_handle && calm(&c) && goaway.get().is_none() && !blocked(&c) {
        do_probe.set(true);
        c.count = n + 1;
        count("probe_exchanges");
    }
    pgate.open();
    let end = run(lim(), || false);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 2 ended with {end:?}"));
        return;
    }
    if c.count > n {
        judge(&c, true);
        if violated() {
            return;
        }
    }
    // -- the end
    gate.open();
    closing.set(true);
    let rest = run(lim(), || false);
    if violated() {
        return;
    }
    let hung = waits(&c);
    if rest == End::Quiescent && calm(&c) && !hung && sh.borrow().client_result.is_none() && !blocked(&c) {
        violate("idle-conn-stays", "every handle is gone and every exchange is over, but the connection goes on".into());
        return;
    }
    match end_kind {
        0 if offended.is_empty() && !mangle => {
            peer.send(GOAWAY, 0, 0, &{
                let mut b = (1 + 2 * n as u32).to_be_bytes().to_vec();
                b.extend([0; 4]);
                b
            });
            peer.close();
        }
        1 => net::reset_now(conn),
        _ => peer.close(),
    }
    let end = run(lim(), || false);
    if violated() {
        return;
    }
    if end != End::Quiescent {
        violate("no-progress", format!("phase 3 ended with {end:?}"));
        return;
    }
    if !task_done(caller) {
        violate("caller-stuck", "all is over but a caller is still waiting".into());
        return;
    }
    judge(&c, false);
    if violated() {
        return;
    }
    if calm(&c) && !hung && end_kind != 1 {
        let s = sh.borrow();
        if !matches!(s.client_result, Some(Ok(()))) {
            violate("conn-error", format!("nothing failed but the client ended {:?}", s.client_result));
            return;
        }
    }
    released(client_task, conn, 0, &[1, 2, 3, 7]);
}

async fn answer(p: &Peer, sid: u32, plan: SPlan, rlen: u64, ga: Rc<Cell<Option<(u32, u32)>>>) {
    match plan.when {
        When::Head => {}
        When::Data(k) => {
            p.until(|s| s.streams[&sid].data.len() as u64 >= (k as u64).min(rlen) || s.streams[&sid].ended || s.streams[&sid].rst.is_some()).await;
        }
        When::End => {
            p.until(|s| s.streams[&sid].ended || s.streams[&sid].rst.is_some()).await;
        }
    }
    sleep(plan.delay).await;
    let gone = || {
        let s = p.st.borrow();
        let x = &s.streams[&sid];
        x.rst.is_some() || x.we_reset || s.offended || s.eof || s.err || s.closed || ga.get().is_some_and(|g| sid > g.0)
    };
    if gone() || plan.kind == Kind::Hang {
        return;
    }
    p.st.borrow_mut().streams.get_mut(&sid).unwrap().touched = true;
    for f in &plan.interims {
        p.headers(sid, f, false, true);
        count("interim_responses");
        if wc(1, 3) {
            sleep(wr(0, 1500) as u64 * 1000).await;
            if gone() {
                return;
            }
        }
    }
    if plan.noise {
        match wd(5) {
            0 => p.send(PRIORITY, 0, sid, &[0, 0, 0, if sid == 1 { 3 } else { 1 }, 9]),
            1 => p.send(0xbe, 0x55, sid, b"unknown"),
            2 => p.send(PING, 0, 0, b"12345678"),
            3 => p.widen(sid, 9),
            _ => p.send(0xfe, 1, 0, b""),
        }
    }
    let mut f = plan.fields();
    let tail = !plan.trailers.is_empty();
    match &plan.kind {
        Kind::Reset { code, head: false, .. } => {
            count("peer_resets");
            return p.rst(sid, *code);
        }
        Kind::BadHead(w) => {
            spoil(w, &mut f);
            let end = plan.data.is_empty() || wc(1, 2);
            return p.headers(sid, &f, end, false);
        }
        _ => {}
    }
    let upto = match plan.kind {
        Kind::Reset { after, .. } | Kind::Stall { after } => after,
        _ => plan.data.len(),
    };
    let part = matches!(plan.kind, Kind::Reset { .. } | Kind::Stall { .. });
    let body = !plan.data.is_empty() || plan.status == 200 && wc(1, 6) && !tail;
    let end_now = !part && !body && !tail;
    p.headers(sid, &f, end_now, plan.kind != Kind::Oversize);
    if !end_now && (body || part) {
        sleep(plan.pause).await;
        let k = wr(1, 3) as usize;
        let mut q = 0;
        for j in 1..=k {
            let to = if j == k { upto } else { q + wd((upto - q) as u32 + 1) as usize };
            let last = j == k && !part;
            if gone() {
                return;
            }
            if (to > q || last) && !p.data(sid, &plan.data[q..to], last && !tail, true).await {
                return;
            }
            q = to;
            if j < k && wc(1, 2) {
                sleep(wr(0, 2000) as u64 * 1000).await;
            }
        }
    }
    if gone() {
        return;
    }
    if let Kind::Reset { code, .. } = plan.kind {
        sleep(plan.pause).await;
        if !gone() {
            count("peer_resets");
            p.rst(sid, code);
        }
        return;
    }
    if part {
        return;
    }
    if tail {
        let t: Vec<Field> = plan.trailers.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.clone())).collect();
        p.headers(sid, &t, true, true);
    }
    if plan.kind == Kind::Early && !gone() {
        if wc(1, 2) {
            sleep(wr(0, 1500) as u64 * 1000).await;
        }
        if !gone() && !p.st.borrow().streams[&sid].ended {
            count("peer_resets");
            p.rst(sid, 0);
        }
    }
}

fn calm(c: &Ctx) -> bool {
    let s = c.sh.borrow();
    let enhanced = s.client_result.as_ref().is_some_and(|r| r.as_ref().is_err_and(|e| e.contains("ENHANCE_YOUR_CALM")));
    c.offended.is_empty() && !(c.abrupt && net::any_fault_fired(c.conn)) && !c.mangle && !enhanced && c.goaway.map_or(true, |g| g.1 == 0)
}
/// Some exchange waits for what the peer never sends.
fn waits(c: &Ctx) -> bool {
    let p = c.peer.st.borrow();
    p.streams.values().any(|x| x.rst.is_none() && !x.we_reset && !x.we_ended)
}
/// Waiting exchanges may keep others from starting.
fn blocked(c: &Ctx) -> bool {
    (c.small_mcs || c.side.imss.is_some()) && waits(c)
}

fn judge(c: &Ctx, open: bool) {
    let s = c.sh.borrow();
    let p = c.peer.st.borrow();
    let calm = calm(c);
    let written = dir(c.conn, 0, |d| d.written.clone());
    check_settings(&written, true, &c.side);
    if violated() {
        return;
    }
    if !open && s.client_result.is_none() {
        violate("conn-never-ends", "the transport has ended but the connection future has not".into());
        return;
    }
    // (the future that the caller drives ends with the last handle; the
    // connection itself lives on until its exchanges are over)
    let ended = with(|w| w.net.conns[c.conn].dropped[0]);
    let deaf = p.eof || p.err || p.closed;
    if !c.offended.is_empty() {
        if !matches!(s.client_result, Some(Err(_))) && c.kept && !with(|w| w.stats.contains_key("preempt_runs")) {
            violate("violation-swallowed", format!("after {}: connection {:?}, GOAWAYs {:?}", c.offended, s.client_result, p.goaways));
            return;
        }
        // (a GOAWAY that still waits for room is overtaken by the one of the
        // idle connection in the h2 crate)
        if p.goaways.is_empty() {
            violate("violation-untold", format!("after {}: GOAWAYs {:?}", c.offended, p.goaways));
            return;
        }
    }
    if c.goaway.is_some_and(|g| g.1 != 0) && c.offended.is_empty() && !c.mangle && !(c.abrupt && net::any_fault_fired(c.conn)) && c.kept && !with(|w| w.stats.contains_key("preempt_runs")) {
        if let Some(Ok(())) = &s.client_result {
            violate("violation-swallowed", format!("told to go away with {}, but the connection ended Ok", c.goaway.unwrap().1));
            return;
        }
    }
    if open && calm {
        if let Some(Err(e)) = &s.client_result {
            violate("conn-error", format!("nothing failed on the connection but it ended with {e}"));
            return;
        }
        if !p.goaways.iter().all(|g| g.1 == 0) {
            violate("needless-goaway", format!("{:?}", p.goaways));
            return;
        }
    }
    if let Some(e) = p.over_mcs.as_ref().filter(|_| !c.mangle) {
        violate("too-many-streams", e.clone());
        return;
    }
    let mark = c.goaway.map_or(u32::MAX, |g| g.0);
    for i in 0..c.reqs.len() {
        let (r, plan, o) = (&c.reqs[i], &c.plans[i], &s.outs[i]);
        let mine: Vec<u32> = p
            .streams
            .iter()
            .filter(|(_, x)| x.heads.first().is_some_and(|h| h.0.iter().any(|f| f.0 == b":path" && f_h2p::path_index(&String::from_utf8_lossy(&f.1)) == i)))
            .map(|x| *x.0)
            .collect();
        let sid = mine.first().copied();
        let x = sid.map(|k| &p.streams[&k]);
        let show = || {
            format!(
                "request {i} ({:?}): stream {sid:?} sent {:?}; outcome {:?} cancelled {} body {:?}; we ended {:?}; goaway {:?}",
                plan.kind,
                x.map(|x| (x.data.len(), x.ended, x.rst)),
                o.result.as_ref().map(|r| match r {
                    Res::Ok { status, .. } => status.to_string(),
                    Res::Err { text, returned, .. } => format!("{text} returned {returned}"),
                }),
                o.cancelled,
                o.log.as_ref().map(|l| (l.borrow().data.len(), l.borrow().end.clone())),
                x.map(|x| (x.we_ended, x.we_reset)),
                c.goaway
            )
        };
        if mine.len() > 1 {
            violate("request-twice", show());
            return;
        }
        if !o.submitted {
            if x.is_some() {
                violate("unknown-request", show());
                return;
            }
            continue;
        }
        let (rdata, rok) = h2_body(&r.body);
        let x_wire = x.filter(|_| !c.mangle);
        // --- what went over the wire
        if let Some(x) = x_wire {
            let h = &x.heads[0].0;
            let pseudo: Vec<(String, String)> = h.iter().filter(|f| f.0.starts_with(b":")).map(|f| (String::from_utf8_lossy(&f.0).to_string(), String::from_utf8_lossy(&f.1).to_string())).collect();
            let mut sorted = pseudo.clone();
            sorted.sort();
            let want_p: Vec<(String, String)> = [(":authority", "example.com"), (":method", &r.method[..]), (":path", &r.path[..]), (":scheme", "http")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            if sorted != want_p || h.iter().position(|f| !f.0.starts_with(b":")).is_some_and(|k| h[k..].iter().any(|f| f.0.starts_with(b":"))) {
                violate("request-line", format!("{}: wrote {pseudo:?}", show()));
                return;
            }
            let mut got: HMap = HMap::new();
            for (k, v) in h.iter().filter(|f| !f.0.starts_with(b":")) {
                got.entry(String::from_utf8_lossy(k).to_string()).or_default().push(v.clone());
            }
            let mut want = f_h2p::stripped(&r.hdrs, true);
            let cl = got.remove("content-length");
            let wcl = want.remove("content-length");
            if got != want {
                violate("request-headers", format!("{}: gave [{}] wrote [{}]", show(), show_hmap(&want), show_hmap(&got)));
                return;
            }
            let dec = r.body.declared().map(|n| vec![n.to_string().into_bytes()]);
            let fine = match (&cl, &wcl) {
                (Some(v), Some(w)) => v == w,
                (Some(v), None) => Some(v) == dec.as_ref(),
                (None, Some(_)) => false,
                (None, None) => dec.is_none() || r.body.declared() == Some(0),
            };
            if !fine {
                violate("request-length", format!("{}: content-length {cl:?} supplied {wcl:?} declared {:?}", show(), r.body.declared()));
                return;
            }
            if !rdata.starts_with(&x.data) && !(r.body.declared().is_some_and(|n| n < rdata.len() as u64)) {
                violate("request-body", show());
                return;
            }
            if x.ended {
                // (one of another length than its head says is no message either)
                let odd = !r.body.fails() && !r.body.hangs() && cl.as_ref().is_some_and(|v| v[0] != x.data.len().to_string().into_bytes());
                if !rok && !odd {
                    violate("failed-body-complete", show());
                    return;
                }
                let tr: HMap = match x.heads.len() {
                    1 => HMap::new(),
                    _ => hmap(&x.heads[1].0.iter().map(|(k, v)| (String::from_utf8_lossy(k).to_string(), v.clone())).collect::<Vec<_>>()),
                };
                let want_t = r.body.trailers().map(|t| hmap_http(&t)).unwrap_or_default();
                if rok && (x.data != rdata || tr != want_t || x.heads.len() > 2) {
                    violate("request-body", format!("{}: complete after {} of {} bytes, trailers [{}] of [{}]", show(), x.data.len(), rdata.len(), show_hmap(&tr), show_hmap(&want_t)));
                    return;
                }
            }
        }
        // --- the outcome
        if o.result.is_none() && !o.cancelled {
            let waiting = open && !ended && (matches!(plan.kind, Kind::Hang) && sid.map_or(true, |k| k <= mark) || blocked(c) && x.is_none() || c.mangle || deaf);
            if !waiting {
                violate("request-unresolved", show());
                return;
            }
            continue;
        }
        if let Some(Res::Err { flags, returned, .. }) = &o.result {
            if (*returned || flags.canceled) && x.is_some() {
                violate("returned-but-sent", show());
                return;
            }
            if flags.canceled && r.try_send && !*returned {
                violate("not-handed-back", show());
                return;
            }
            if flags.user && rok {
                violate("blames-caller", show());
                return;
            }
        }
        if c.mangle {
            continue;
        }
        let answers = matches!(plan.kind, Kind::Good | Kind::Early | Kind::BadBody(_) | Kind::Stall { .. } | Kind::Reset { head: true, .. });
        let quits = matches!(r.read, ReadPlan::Drop | ReadPlan::Frames(_) | ReadPlan::Hold(_));
        if let Some(Res::Ok { status, v11, hdrs, .. }) = &o.result {
            let touched = x.is_some_and(|x| x.touched);
            if !answers || !touched {
                violate("response-invented", show());
                return;
            }
            let mut want = plan.hdrs.clone();
            if let Some(n) = plan.cl {
                want.insert("content-length".into(), vec![n.to_string().into_bytes()]);
            }
            if *status != plan.status || !*v11 || *hdrs != want {
                violate("response-altered", format!("{}: sent {} [{}] delivered {status} [{}]", show(), plan.status, show_hmap(&want), show_hmap(hdrs)));
                return;
            }
            let l = o.log.as_ref().unwrap().borrow();
            if !plan.data.starts_with(&l.data) {
                violate("response-body", show());
                return;
            }
            let tr: HMap = l.trailers.as_ref().map(hmap_http).unwrap_or_default();
            let full = l.data == plan.data && tr == hmap(&plan.trailers) && matches!(plan.kind, Kind::Good | Kind::Early) && x.unwrap().we_ended;
            if let Some((k, t)) = l.claimed_at {
                if !full && !(k == plan.data.len() && t != plan.trailers.is_empty() && matches!(plan.kind, Kind::Good | Kind::Early)) {
                    violate("end-stream-lie", format!("{}: is_end_stream() after {k} of {} bytes", show(), plan.data.len()));
                    return;
                }
            }
            if l.clean() && !full {
                // a reset with NO_ERROR may end it early unless a length is outstanding
                let own = x.unwrap().rst.is_some() && !rok;
                let excuse = (matches!(plan.kind, Kind::Reset { code: 0, .. }) || own && c.plans[i].kind == Kind::Early) && plan.cl.map_or(true, |n| r.method == "HEAD" || n == l.data.len() as u64);
                if !excuse {
                    violate("truncated-complete", show());
                    return;
                }
            }
            if l.end == BodyEnd::Open && !(open && !ended && (matches!(plan.kind, Kind::Stall { .. }) || deaf)) {
                violate("body-stuck", show());
                return;
            }
            if calm && matches!(plan.kind, Kind::Good | Kind::Early) && !l.clean() && !quits && rok && sid.unwrap() <= mark {
                violate("response-cut", show());
                return;
            }
        }
        // bodies of ended streams are let go of
        let over = ended || x.is_some_and(|x| x.rst.is_some() || x.we_reset || x.ended);
        if over {
            if let Some(b) = o.body_id {
                if !with(|w| w.bodies[b].dropped) && o.result.as_ref().map_or(true, |r| !matches!(r, Res::Err { returned: true, .. })) {
                    violate("body-not-stopped", format!("{}: the request body is still alive", show()));
                    return;
                }
            }
        }
        if !calm || !open {
            continue;
        }
        // --- nothing failed
        let Some(x) = x else {
            if c.goaway.is_none() && !o.cancelled && !matches!(o.result, Some(Res::Err { .. })) {
                violate("never-sent", show());
            } else if c.goaway.is_none() && !o.cancelled && rok {
                violate("needless-error", show());
            }
            if violated() {
                return;
            }
            continue;
        };
        if sid.unwrap() > mark {
            if !matches!(o.result, Some(Res::Err { .. })) && !o.cancelled {
                violate("beyond-goaway", show());
                return;
            }
            count("refused_by_goaway");
            continue;
        }
        if o.cancelled {
            if x.rst.is_none() && !x.we_reset && !(x.ended && x.we_ended) {
                violate("cancel-unsent", show());
                return;
            }
            if x.rst.is_some_and(|k| k != 8) && rok && !matches!(plan.kind, Kind::BadHead(_) | Kind::BadBody(_) | Kind::Oversize) {
                violate("cancel-reason", show());
                return;
            }
            continue;
        }
        if !rok && !x.we_reset {
            // told to the server, unless the exchange was over by then
            let told = x.rst == Some(2) || x.ended && !r.body.fails() || x.rst == Some(8) && quits || matches!(plan.kind, Kind::BadHead(_) | Kind::BadBody(_) | Kind::Oversize) && x.rst.is_some();
            if !told {
                violate("failed-body-untold", show());
                return;
            }
            count("failed_bodies");
            continue;
        }
        let err = |want: &str| match &o.result {
            Some(Res::Err { text, .. }) => text.contains(want),
            _ => false,
        };
        match &plan.kind {
            Kind::Good | Kind::Early => {
                if !rok {
                    continue;
                }
                if !matches!(o.result, Some(Res::Ok { .. })) {
                    violate("response-lost", show());
                    return;
                }
                if x.rst.is_some() && !quits {
                    violate("needless-reset", show());
                    return;
                }
                if x.rst.is_some_and(|k| k != 8) {
                    violate("reset-reason", show());
                    return;
                }
                if plan.kind == Kind::Good && !x.ended && x.rst.is_none() {
                    violate("request-cut", show());
                    return;
                }
                count("good_streams");
            }
            Kind::Reset { code, head, .. } => {
                if !*head && x.we_reset && rok {
                    let name = match code {
                        0 => "NO_ERROR",
                        1 => "PROTOCOL_ERROR",
                        2 => "INTERNAL_ERROR",
                        5 => "STREAM_CLOSED",
                        7 => "REFUSED_STREAM",
                        8 => "CANCEL",
                        11 => "ENHANCE_YOUR_CALM",
                        13 => "HTTP_1_1_REQUIRED",
                        _ => "",
                    };
                    if !err(name) {
                        violate("reset-misreported", show());
                        return;
                    }
                }
            }
            Kind::BadHead(_) => {
                if !err("") || x.rst != Some(1) && !x.we_ended {
                    violate("bad-not-reset", show());
                    return;
                }
                count("bad_heads_refused");
            }
            Kind::BadBody(_) => {
                if x.rst.is_none() && !x.we_ended {
                    violate("bad-not-reset", show());
                    return;
                }
                count("bad_bodies");
            }
            Kind::Oversize => {
                if !err("") {
                    violate("oversize-not-refused", show());
                    return;
                }
                count("oversize_refused");
            }
            Kind::Stall { .. } => {
                if quits && x.touched && x.ended && x.rst != Some(8) && o.log.as_ref().is_some_and(|l| l.borrow().end == BodyEnd::Dropped) {
                    violate("abandoned-not-reset", show());
                    return;
                }
            }
            Kind::Hang => {}
        }
    }
    if open && calm && !ended {
        let total = if c.side.adaptive { 65_535 } else { c.side.cw.unwrap_or(5 << 20) as i64 }.max(65_535);
        let held = s.outs.iter().any(|o| o.log.as_ref().is_some_and(|l| matches!(l.borrow().end, BodyEnd::Open)));
        if p.conn_send < total / 2 - 1 && !held {
            violate("capacity-leak", format!("all streams are over but only {} of {total} bytes of the connection window are available", p.conn_send));
            return;
        }
        if !waits_in(&p) {
            // (the connection itself, nothing else)
            let l: Vec<String> = live_tasks(3).into_iter().map(|x| format!("{x:?}")).collect();
            if l.len() > 1 {
                violate("stream-task-leak", format!("{l:?}"));
            }
        }
    }
    let _ = (Mode::Answer, SRead::All);
}
fn waits_in(s: &State) -> bool {
    s.streams.values().any(|x| x.rst.is_none() && !x.we_reset && !(x.we_ended && x.ended))
}
