//! Simulated byte-stream transport with scripted short reads/writes,
//! backpressure, delays, stalls, truncation, resets and write errors.
use crate::core::*;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug)]
pub struct IoKnobs {
    /// 0 all, 1 one byte, 2 up to 7, 3 random, 4 random with small bias
    pub read_mode: u32,
    pub write_mode: u32,
    /// /256
    pub read_pend: u32,
    pub write_pend: u32,
    pub flush_pend: u32,
    pub shut_pend: u32,
    pub vectored: bool,
    /// data only leaves on flush
    pub buffered: bool,
    /// dropping an end with unread input resets the connection
    pub rst_on_drop: bool,
    /// what is written to this end after it was dropped vanishes instead of failing
    pub linger: bool,
    /// max delivery delay
    pub latency: u64,
    pub cap: usize,
}
impl Default for IoKnobs {
    fn default() -> Self {
        IoKnobs {
            read_mode: 0,
            write_mode: 0,
            read_pend: 0,
            write_pend: 0,
            flush_pend: 0,
            shut_pend: 0,
            vectored: true,
            buffered: false,
            rst_on_drop: false,
            linger: false,
            latency: 0,
            cap: 1 << 20,
        }
    }
}
pub fn draw_io() -> IoKnobs {
    IoKnobs {
        read_mode: ww(&[4, 2, 2, 3, 2]) as u32,
        write_mode: ww(&[4, 1, 2, 3, 2]) as u32,
        read_pend: pick(&[0, 0, 20, 90]),
        write_pend: pick(&[0, 0, 20, 90]),
        flush_pend: pick(&[0, 0, 60]),
        shut_pend: pick(&[0, 0, 120]),
        vectored: !wc(1, 3),
        buffered: wc(1, 4),
        rst_on_drop: wc(1, 6),
        linger: false,
        latency: pick(&[0, 0, 50_000, 5_000_000]),
        cap: pick(&[1 << 20, 1 << 20, 16384, 1024, 64, 7]),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// reader sees orderly end after this many bytes (the rest is lost)
    Eof,
    /// both sides see a reset after this many bytes were delivered
    Reset,
    /// the writer gets an error after this many bytes were accepted
    WriteErr,
    /// the reader gets an error after this many bytes, writing goes on
    ReadErr,
    /// delivery pauses for this long
    Stall(u64),
    /// delivery stops for good
    Blackhole,
}
#[derive(Clone, Debug)]
pub struct Planned {
    pub at: u64,
    pub kind: Fault,
    pub fired: bool,
}

#[derive(Default)]
pub struct Dir {
    pub buf: VecDeque<u8>,
    inflight: usize,
    last_at: u64,
    /// written but not flushed (buffered transports)
    unflushed: Vec<u8>,
    /// everything the writer handed over, in order
    pub written: Vec<u8>,
    pub delivered: u64,
    pub read_total: u64,
    pub eof: bool,
    pub eof_seen: bool,
    pub shutdown_called: bool,
    pub shutdown_done: bool,
    pub shutdown_at: u64,
    pub written_at_shutdown: usize,
    pub err: Option<io::ErrorKind>,
    pub err_seen: bool,
    pub werr: Option<io::ErrorKind>,
    pub werr_seen: bool,
    rd: Option<Waker>,
    pub wr: Option<Waker>,
    pub plan: Vec<Planned>,
    stalled_until: u64,
    pub blackhole: bool,
    pub discard: bool,
    /// not even the end arrives
    pub dark: bool,
    /// writer is refused until this time (u64::MAX: until released)
    pub wblock_until: u64,
    pub reads: u64,
    pub writes: u64,
    pub last_write_at: u64,
    /// (time, total written) at each write
    pub write_log: Vec<(u64, usize)>,
    pub log_writes: bool,
    /// bytes to spoil on the way: (offset, how)
    pub mangle: Vec<(usize, u8)>,
    pub max_queue: usize,
    /// at each write: (written after it, read so far in the other direction)
    pub wx: Vec<(u64, u64)>,
    /// at each read: (read after it, written so far in the other direction)
    pub rx: Vec<(u64, u64)>,
}
pub struct Conn {
    pub dir: [Dir; 2],
    pub knobs: [IoKnobs; 2],
    pub dropped: [bool; 2],
    pub dropped_at: [u64; 2],
    /// report misuse by this side (hyper's side)
    pub watch: [bool; 2],
    pub name: &'static str,
}
#[derive(Default)]
pub struct Net {
    pub conns: Vec<Conn>,
}

#[derive(Debug)]
pub struct Sock {
    pub conn: usize,
    pub side: usize,
}

/// Creates a connection; side 0's writes are dir[0], read by side 1.
pub fn connect(name: &'static str, k0: IoKnobs, k1: IoKnobs) -> (Sock, Sock) {
    with(|w| {
        let id = w.net.conns.len();
        w.net.conns.push(Conn {
            dir: [Dir::default(), Dir::default()],
            knobs: [k0, k1],
            dropped: [false, false],
            dropped_at: [u64::MAX; 2],
            watch: [true, true],
            name,
        });
        (Sock { conn: id, side: 0 }, Sock { conn: id, side: 1 })
    })
}
pub fn plan_fault(conn: usize, dir: usize, at: u64, kind: Fault) {
    with(|w| {
        let p = &mut w.net.conns[conn].dir[dir].plan;
        p.push(Planned { at, kind, fired: false });
        p.sort_by_key(|x| x.at);
    });
}
pub fn dir<R>(conn: usize, d: usize, f: impl FnOnce(&mut Dir) -> R) -> R {
    with(|w| f(&mut w.net.conns[conn].dir[d]))
}
pub fn any_fault_fired(conn: usize) -> bool {
    with(|w| w.net.conns[conn].dir.iter().any(|d| d.plan.iter().any(|p| p.fired)))
}
pub fn fault_fired(conn: usize, d: usize, f: impl Fn(&Fault) -> bool) -> bool {
    with(|w| w.net.conns[conn].dir[d].plan.iter().any(|p| p.fired && f(&p.kind)))
}
/// How much of direction `1-d` had been read by the writer of `d` when it
/// first wrote the byte at `off`.
pub fn read_when_written(conn: usize, d: usize, off: u64) -> Option<u64> {
    dir(conn, d, |x| x.wx.iter().find(|(w, _)| *w > off).map(|y| y.1))
}
/// How much of direction `1-d` had been written by the reader of `d` when it
/// first read the byte at `off`.
pub fn written_when_read(conn: usize, d: usize, off: u64) -> Option<u64> {
    dir(conn, d, |x| x.rx.iter().find(|(r, _)| *r > off).map(|y| y.1))
}
/// Where the read call that returned byte `off` of `d` ended.
pub fn read_call_end(conn: usize, d: usize, off: u64) -> Option<u64> {
    dir(conn, d, |x| x.rx.iter().find(|(r, _)| *r > off).map(|y| y.0))
}
/// Blocks the writer of `d` from now on, until `unblock_writes`.
pub fn block_writes(conn: usize, d: usize) {
    dir(conn, d, |x| x.wblock_until = u64::MAX);
}
pub fn unblock_writes(conn: usize, d: usize) {
    let w = dir(conn, d, |x| {
        x.wblock_until = 0;
        x.wr.take()
    });
    if let Some(w) = w {
        w.wake();
    }
}

fn fault_name(k: &Fault) -> &'static str {
    match k {
        Fault::Eof => "fault_eof",
        Fault::Reset => "fault_reset",
        Fault::WriteErr => "fault_write_err",
        Fault::ReadErr => "fault_read_err",
        Fault::Stall(_) => "fault_stall",
        Fault::Blackhole => "fault_blackhole",
    }
}

fn amount(mode: u32, max: usize) -> usize {
    if max <= 1 {
        return max;
    }
    match mode {
        0 => max,
        1 => 1,
        2 => 1 + sd(max.min(7) as u32) as usize,
        3 => max - sd(max as u32) as usize,
        _ => {
            if sc(1, 2) {
                1 + sd(max.min(4) as u32) as usize
            } else {
                max - sd(max as u32) as usize
            }
        }
    }
}

/// Puts bytes into the reader's buffer, applying planned truncations.
fn deliver(conn: usize, d: usize, bytes: &[u8]) {
    let wakers = with(|w| {
        let mut wk: Vec<Waker> = Vec::new();
        let c = &mut w.net.conns[conn];
        let dd = &mut c.dir[d];
        dd.inflight -= bytes.len();
        if dd.discard || dd.err.is_some() || dd.eof {
            return wk;
        }
        let mut n = bytes.len();
        let mut hit: Option<Fault> = None;
        for p in dd.plan.iter_mut() {
            if p.fired {
                continue;
            }
            match p.kind {
                Fault::Eof | Fault::Reset | Fault::ReadErr if dd.delivered + n as u64 >= p.at => {
                    n = (p.at - dd.delivered.min(p.at)) as usize;
                    p.fired = true;
                    hit = Some(p.kind);
                    break;
                }
                _ => {}
            }
        }
        dd.buf.extend(&bytes[..n]);
        dd.delivered += n as u64;
        dd.max_queue = dd.max_queue.max(dd.buf.len());
        if let Some(x) = dd.rd.take() {
            wk.push(x);
        }
        if let Some(k) = hit {
            *w.stats.entry(fault_name(&k)).or_insert(0) += 1;
            if let Some(t) = &mut w.trace {
                t.push(format!("[{:>9}us] fault {:?} on conn {conn} dir {d}", w.now / 1000, k));
            }
            match k {
                Fault::Eof => {
                    dd.eof = true;
                    dd.discard = true;
                    if let Some(x) = dd.wr.take() {
                        wk.push(x);
                    }
                }
                Fault::Reset => wk.extend(reset_conn(c, d)),
                Fault::ReadErr => {
                    dd.err = Some(io::ErrorKind::TimedOut);
                    dd.discard = true;
                    if let Some(x) = dd.wr.take() {
                        wk.push(x);
                    }
                }
                _ => {}
            }
        }
        wk
    });
    for w in wakers {
        w.wake();
    }
}

fn reset_conn(c: &mut Conn, d: usize) -> Vec<Waker> {
    let mut wk = Vec::new();
    for i in 0..2 {
        let dd = &mut c.dir[i];
        if dd.err.is_none() {
            dd.err = Some(io::ErrorKind::ConnectionReset);
        }
        dd.werr = Some(if i == d { io::ErrorKind::BrokenPipe } else { io::ErrorKind::ConnectionReset });
        if i != d {
            // the resetting direction's reader may still hold delivered bytes;
            // the other direction loses what was not read yet
            dd.buf.clear();
        }
        dd.discard = true;
        wk.extend(dd.rd.take());
        wk.extend(dd.wr.take());
    }
    wk
}
/// Resets the connection now (both directions).
pub fn reset_now(conn: usize) {
    count("fault_reset_now");
    tr(|| format!("reset conn {conn}"));
    let wk = with(|w| {
        let c = &mut w.net.conns[conn];
        let mut wk = reset_conn(c, 0);
        for i in 0..2 {
            c.dir[i].buf.clear();
        }
        wk.extend(c.dir[0].rd.take());
        wk
    });
    for w in wk {
        w.wake();
    }
}

/// Fires zero-offset faults that would otherwise wait for a byte.
pub fn arm(conn: usize) {
    for d in 0..2 {
        let zero = dir(conn, d, |x| x.plan.iter().any(|p| p.at == 0 && !p.fired));
        if zero {
            dir(conn, d, |x| x.inflight += 0);
            deliver(conn, d, &[]);
        }
    }
}

fn transmit(conn: usize, d: usize, bytes: Vec<u8>) {
    if bytes.is_empty() {
        return;
    }
    let side = d;
    let lat = with(|w| {
        let l = w.net.conns[conn].knobs[side].latency;
        w.net.conns[conn].dir[d].inflight += bytes.len();
        l
    });
    if lat == 0 {
        deliver(conn, d, &bytes);
        return;
    }
    let delay = sd(lat.min(1 << 31) as u32 + 1) as u64;
    let t = with(|w| {
        let t = (w.now + delay).max(w.net.conns[conn].dir[d].last_at);
        w.net.conns[conn].dir[d].last_at = t;
        t
    });
    if t == now() {
        deliver(conn, d, &bytes);
    } else {
        count("delayed_segments");
        at(t, move || deliver(conn, d, &bytes));
    }
}
fn send_eof(conn: usize, d: usize) {
    if dir(conn, d, |x| x.dark) {
        return;
    }
    let t = with(|w| {
        let x = &mut w.net.conns[conn].dir[d];
        x.last_at.max(w.now)
    });
    let go = move || {
        let wk = dir(conn, d, |x| {
            if x.err.is_none() {
                x.eof = true;
            }
            x.rd.take()
        });
        if let Some(w) = wk {
            w.wake();
        }
    };
    if t == now() {
        go();
    } else {
        at(t, go);
    }
}

impl Sock {
    /// Like `poll_read`, returning the bytes.
    pub fn read_poll(&self, cx: &mut Context<'_>, max: usize) -> Poll<io::Result<Vec<u8>>> {
        let (c, d) = (self.conn, 1 - self.side);
        enum R {
            Data(Vec<u8>, Option<Waker>),
            Eof,
            Err(io::ErrorKind),
            Pend,
            Spurious,
            StallFor(u64),
        }
        if max == 0 {
            return Poll::Ready(Ok(Vec::new()));
        }
        let mut k = with(|w| w.net.conns[c].knobs[self.side].clone());
        if dir(c, d, |x| x.reads) > 300 {
            // tiny reads wear off, so that long transfers end
            k.read_mode = 0;
            k.read_pend /= 4;
        }
        let pend = k.read_pend > 0 && sc(k.read_pend, 256);
        let avail = with(|w| {
            let now = w.now;
            let dd = &mut w.net.conns[c].dir[d];
            let mut lim = dd.buf.len();
            let mut stall = None;
            for p in dd.plan.iter_mut() {
                if let Fault::Stall(_) | Fault::Blackhole = p.kind {
                    if !p.fired && p.at <= dd.read_total {
                        p.fired = true;
                        match p.kind {
                            Fault::Stall(t) => {
                                dd.stalled_until = now + t;
                                stall = Some(p.kind);
                            }
                            _ => {
                                dd.blackhole = true;
                                stall = Some(p.kind);
                            }
                        }
                    } else if !p.fired {
                        lim = lim.min((p.at - dd.read_total) as usize);
                    }
                }
            }
            if let Some(k) = stall {
                *w.stats.entry(fault_name(&k)).or_insert(0) += 1;
                if let Some(t) = &mut w.trace {
                    t.push(format!("[{:>9}us] fault {:?} on conn {c} dir {d}", now / 1000, k));
                }
            }
            lim
        });
        let n = if avail > 0 && !pend { amount(k.read_mode, avail.min(max)) } else { 0 };
        let r = with(|w| {
            let now = w.now;
            let dd = &mut w.net.conns[c].dir[d];
            dd.reads += 1;
            if dd.blackhole {
                dd.rd = Some(cx.waker().clone());
                return R::Pend;
            }
            if dd.stalled_until > now {
                dd.rd = Some(cx.waker().clone());
                return R::StallFor(dd.stalled_until - now);
            }
            if pend {
                return R::Spurious;
            }
            if n > 0 {
                let v: Vec<u8> = dd.buf.drain(..n).collect();
                dd.read_total += n as u64;
                let (rt, wk) = (dd.read_total, dd.wr.take());
                let ow = w.net.conns[c].dir[1 - d].written.len() as u64;
                w.net.conns[c].dir[d].rx.push((rt, ow));
                return R::Data(v, wk);
            }
            if let Some(e) = dd.err {
                dd.err_seen = true;
                return R::Err(e);
            }
            if dd.eof && dd.inflight == 0 || dd.eof && dd.discard {
                dd.eof_seen = true;
                return R::Eof;
            }
            dd.rd = Some(cx.waker().clone());
            R::Pend
        });
        match r {
            R::Data(v, wk) => {
                note(0x2ead ^ (v.len() as u64) << 16);
                with(|w| w.sched_hash = crate::choice::mix(w.sched_hash, 0x10000 + v.len() as u64));
                tr(|| format!("  conn{c} side{} read {} bytes: {}", self.side, v.len(), shorten(&v)));
                if let Some(w) = wk {
                    w.wake();
                }
                Poll::Ready(Ok(v))
            }
            R::Eof => {
                note(0xe0f);
                tr(|| format!("  conn{c} side{} read EOF", self.side));
                Poll::Ready(Ok(Vec::new()))
            }
            R::Err(e) => {
                note(0xe44);
                tr(|| format!("  conn{c} side{} read error {e:?}", self.side));
                Poll::Ready(Err(e.into()))
            }
            R::Pend => Poll::Pending,
            R::Spurious => {
                count("read_not_ready");
                wake_after(sd(3) as u64 * 1000, cx.waker().clone());
                Poll::Pending
            }
            R::StallFor(t) => {
                // (re)register: the latest waker is kept in rd
                let (cc, dd) = (c, d);
                after(t, move || {
                    let w = dir(cc, dd, |x| x.rd.take());
                    if let Some(w) = w {
                        w.wake();
                    }
                });
                Poll::Pending
            }
        }
    }

    pub fn write_poll(&self, cx: &mut Context<'_>, bufs: &[&[u8]]) -> Poll<io::Result<usize>> {
        let (c, d) = (self.conn, self.side);
        let len: usize = bufs.iter().map(|b| b.len()).sum();
        let mut k = with(|w| w.net.conns[c].knobs[self.side].clone());
        if dir(c, d, |x| x.writes) > 300 {
            k.write_mode = 0;
            k.write_pend /= 4;
            k.cap = k.cap.max(4096);
        }
        let (bad, watch) = with(|w| {
            let cc = &w.net.conns[c];
            (cc.dir[d].shutdown_called, cc.watch[self.side])
        });
        if bad && watch && len > 0 {
            let all: Vec<u8> = bufs.concat();
            violate("write-after-shutdown", format!("{} bytes written after shutdown: {}", len, shorten(&all)));
        }
        if len == 0 {
            return Poll::Ready(Ok(0));
        }
        let pend = k.write_pend > 0 && sc(k.write_pend, 256);
        enum R {
            Room(usize),
            Err(io::ErrorKind),
            Pend,
            Until(u64),
        }
        let r = with(|w| {
            let now = w.now;
            let cc = &mut w.net.conns[c];
            let other_gone = cc.dropped[1 - self.side];
            let dd = &mut cc.dir[d];
            dd.writes += 1;
            if let Some(e) = dd.werr {
                dd.werr_seen = true;
                return R::Err(e);
            }
            let mut lim = usize::MAX;
            let mut hit = false;
            for p in dd.plan.iter_mut() {
                if p.kind == Fault::WriteErr && !p.fired {
                    if dd.written.len() as u64 >= p.at {
                        p.fired = true;
                        hit = true;
                    } else {
                        lim = lim.min((p.at - dd.written.len() as u64) as usize);
                    }
                }
            }
            if hit {
                dd.werr = Some(io::ErrorKind::BrokenPipe);
                dd.werr_seen = true;
                *w.stats.entry("fault_write_err").or_insert(0) += 1;
                return R::Err(io::ErrorKind::BrokenPipe);
            }
            if other_gone && !dd.discard {
                dd.werr_seen = true;
                return R::Err(io::ErrorKind::BrokenPipe);
            }
            if dd.wblock_until > now {
                dd.wr = Some(cx.waker().clone());
                return if dd.wblock_until == u64::MAX { R::Pend } else { R::Until(dd.wblock_until - now) };
            }
            if dd.discard {
                return R::Room(lim); // peer crashed; the kernel still takes bytes
            }
            let used = dd.buf.len() + dd.inflight + dd.unflushed.len();
            if used >= k.cap {
                if k.buffered && !dd.unflushed.is_empty() {
                    // the transport pushes its own buffer out when full
                    return R::Room(usize::MAX - 1);
                }
                dd.wr = Some(cx.waker().clone());
                return R::Pend;
            }
            R::Room((k.cap - used).min(lim))
        });
        let room = match r {
            R::Room(n) => n,
            R::Err(e) => {
                note(0xe45);
                tr(|| format!("  conn{c} side{} write error {e:?}", self.side));
                return Poll::Ready(Err(e.into()));
            }
            R::Pend => {
                count("write_blocked");
                return Poll::Pending;
            }
            R::Until(t) => {
                let (cc, dd) = (c, d);
                after(t, move || {
                    let w = dir(cc, dd, |x| x.wr.take());
                    if let Some(w) = w {
                        w.wake();
                    }
                });
                return Poll::Pending;
            }
        };
        if pend {
            count("write_not_ready");
            wake_after(sd(3) as u64 * 1000, cx.waker().clone());
            return Poll::Pending;
        }
        let mut force_out = false;
        let room = if room == usize::MAX - 1 {
            force_out = true;
            k.cap.max(1)
        } else {
            room
        };
        if force_out {
            let out = dir(c, d, |x| std::mem::take(&mut x.unflushed));
            transmit(c, d, out);
            let blocked = dir(c, d, |x| {
                if x.buf.len() + x.inflight >= k.cap {
                    x.wr = Some(cx.waker().clone());
                    true
                } else {
                    false
                }
            });
            if blocked {
                return Poll::Pending;
            }
        }
        let n = amount(k.write_mode, len.min(room));
        let mut out = Vec::with_capacity(n);
        for b in bufs {
            if out.len() >= n {
                break;
            }
            let m = (n - out.len()).min(b.len());
            out.extend_from_slice(&b[..m]);
        }
        if n < len {
            count("short_writes");
        }
        note_bytes(&out);
        with(|w| w.sched_hash = crate::choice::mix(w.sched_hash, 0x20000 + n as u64));
        tr(|| format!("  conn{c} side{} write {}/{} bytes: {}", self.side, n, len, shorten(&out)));
        with(|w| {
            let now = w.now;
            let or = w.net.conns[c].dir[1 - d].read_total;
            let dd = &mut w.net.conns[c].dir[d];
            if !dd.mangle.is_empty() {
                let from = dd.written.len();
                let Dir { mangle, .. } = dd;
                for (at, x) in mangle.iter() {
                    if *at >= from && *at < from + out.len() && *x != 0 {
                        out[*at - from] ^= *x;
                        w.stats.entry("fault: byte spoiled on the wire").and_modify(|v| *v += 1).or_insert(1);
                    }
                }
            }
            let dd = &mut w.net.conns[c].dir[d];
            dd.written.extend_from_slice(&out);
            let wt = dd.written.len() as u64;
            dd.wx.push((wt, or));
            dd.last_write_at = now;
            if dd.log_writes {
                let t = dd.written.len();
                dd.write_log.push((now, t));
            }
        });
        if k.buffered {
            dir(c, d, |x| {
                if !x.discard {
                    x.unflushed.extend_from_slice(&out)
                }
            });
        } else if dir(c, d, |x| x.discard) {
        } else {
            transmit(c, d, out);
        }
        Poll::Ready(Ok(n))
    }

    pub fn flush_poll(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let (c, d) = (self.conn, self.side);
        let k = with(|w| w.net.conns[c].knobs[self.side].clone());
        if let Some(e) = dir(c, d, |x| x.werr) {
            if k.buffered && dir(c, d, |x| !x.unflushed.is_empty()) {
                dir(c, d, |x| x.werr_seen = true);
                return Poll::Ready(Err(e.into()));
            }
            return Poll::Ready(Ok(()));
        }
        if k.flush_pend > 0 && sc(k.flush_pend, 256) {
            count("flush_not_ready");
            wake_after(sd(3) as u64 * 1000, cx.waker().clone());
            return Poll::Pending;
        }
        if k.buffered {
            let out = dir(c, d, |x| std::mem::take(&mut x.unflushed));
            if !out.is_empty() {
                tr(|| format!("  conn{c} side{} flush {} bytes", self.side, out.len()));
            }
            transmit(c, d, out);
        }
        Poll::Ready(Ok(()))
    }

    pub fn shutdown_poll(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let (c, d) = (self.conn, self.side);
        let k = with(|w| w.net.conns[c].knobs[self.side].clone());
        let first = dir(c, d, |x| !std::mem::replace(&mut x.shutdown_called, true));
        if first {
            let t = now();
            dir(c, d, |x| {
                x.shutdown_at = t;
                x.written_at_shutdown = x.written.len();
            });
            tr(|| format!("  conn{c} side{} shutdown", self.side));
            note(0x5d);
            let (unfl, watch) = with(|w| {
                let cc = &w.net.conns[c];
                (cc.dir[d].unflushed.len(), cc.watch[self.side])
            });
            if unfl > 0 && watch && dir(c, d, |x| x.werr.is_none() && !x.werr_seen) {
                violate("shutdown-unflushed", format!("shutdown with {unfl} bytes never flushed"));
            }
        }
        if k.shut_pend > 0 && sc(k.shut_pend, 256) {
            count("shutdown_not_ready");
            wake_after(sd(3) as u64 * 1000, cx.waker().clone());
            return Poll::Pending;
        }
        if let Some(e) = dir(c, d, |x| x.werr) {
            return Poll::Ready(Err(e.into()));
        }
        if !dir(c, d, |x| std::mem::replace(&mut x.shutdown_done, true)) {
            let out = dir(c, d, |x| std::mem::take(&mut x.unflushed));
            transmit(c, d, out);
            send_eof(c, d);
        }
        Poll::Ready(Ok(()))
    }

    // -- async helpers for scripted peers --
    pub async fn read(&self, max: usize) -> io::Result<Vec<u8>> {
        std::future::poll_fn(|cx| self.read_poll(cx, max)).await
    }
    pub async fn write_some(&self, b: &[u8]) -> io::Result<usize> {
        std::future::poll_fn(|cx| self.write_poll(cx, &[b])).await
    }
    pub async fn flush(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| self.flush_poll(cx)).await
    }
    pub async fn write_all(&self, b: &[u8]) -> io::Result<()> {
        let mut i = 0;
        while i < b.len() {
            i += self.write_some(&b[i..]).await?;
        }
        self.flush().await
    }
    pub async fn shutdown(&self) -> io::Result<()> {
        std::future::poll_fn(|cx| self.shutdown_poll(cx)).await
    }
}

impl Drop for Sock {
    fn drop(&mut self) {
        let (c, s) = (self.conn, self.side);
        let wk = try_with(|w| {
            if w.net.conns.len() <= c {
                return Vec::new();
            }
            if let Some(t) = &mut w.trace {
                t.push(format!("[{:>9}us]   conn{c} side{s} dropped", w.now / 1000));
            }
            let cc = &mut w.net.conns[c];
            if cc.dropped[s] {
                return Vec::new();
            }
            cc.dropped[s] = true;
            cc.dropped_at[s] = w.now;
            let mut wk = Vec::new();
            let unread = !cc.dir[1 - s].buf.is_empty();
            if unread && cc.knobs[s].rst_on_drop {
                *w.stats.entry("rst_on_drop").or_insert(0) += 1;
                wk.extend(reset_conn(cc, s));
                return wk;
            }
            if cc.knobs[s].linger {
                cc.dir[1 - s].discard = true;
            }
            wk.extend(cc.dir[1 - s].wr.take());
            wk
        })
        .unwrap_or_default();
        for w in wk {
            w.wake();
        }
        let send = try_with(|w| {
            w.active && w.net.conns.len() > c && !w.net.conns[c].dir[s].shutdown_done && w.net.conns[c].dir[s].err.is_none()
        })
        .unwrap_or(false);
        if send {
            // a buffered transport loses what was never flushed
            dir(c, s, |x| x.unflushed.clear());
            send_eof(c, s);
        }
    }
}

impl hyper::rt::Read for Sock {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        mut buf: hyper::rt::ReadBufCursor<'_>,
    ) -> Poll<io::Result<()>> {
        match self.read_poll(cx, buf.remaining()) {
            Poll::Ready(Ok(v)) => {
                buf.put_slice(&v);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl hyper::rt::Write for Sock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.write_poll(cx, &[buf])
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.flush_poll(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.shutdown_poll(cx)
    }
    fn is_write_vectored(&self) -> bool {
        with(|w| w.net.conns[self.conn].knobs[self.side].vectored)
    }
    fn poll_write_vectored(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        bufs: &[io::IoSlice<'_>],
    ) -> Poll<io::Result<usize>> {
        let v: Vec<&[u8]> = bufs.iter().map(|b| &b[..]).collect();
        if with(|w| w.net.conns[self.conn].knobs[self.side].vectored) {
            self.write_poll(cx, &v)
        } else {
            let b = v.iter().find(|b| !b.is_empty()).copied().unwrap_or(&[]);
            self.write_poll(cx, &[b])
        }
    }
}
impl tokio::io::AsyncRead for Sock {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        match self.read_poll(cx, buf.remaining()) {
            Poll::Ready(Ok(v)) => {
                buf.put_slice(&v);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl tokio::io::AsyncWrite for Sock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.write_poll(cx, &[buf])
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.flush_poll(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.shutdown_poll(cx)
    }
}

/// From now on nothing written in direction `d` arrives.
pub fn blackhole_now(conn: usize, d: usize) {
    count("fault_blackhole");
    tr(|| format!("  conn{conn} direction {d} goes dark"));
    dir(conn, d, |x| {
        x.discard = true;
        x.dark = true;
    });
}
/// Delivery in direction `d` pauses for `t`.
pub fn stall_now(conn: usize, d: usize, t: u64) {
    count("fault_stall");
    tr(|| format!("  conn{conn} direction {d} stalls for {} us", t / 1000));
    let n = now();
    dir(conn, d, |x| x.stalled_until = n + t);
}
