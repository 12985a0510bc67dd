//! A raw HTTP/2 peer: writes frames as told (valid or not), reads and decodes
//! what the other side writes, and checks it against the windows, frame sizes
//! and stream states it granted.
use crate::core::*;
use crate::f_h2p::{be32, PREFACE};
use crate::hpack::{self, Field};
use crate::net::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::task::{Poll, Waker};

pub const DATA: u8 = 0;
pub const HEADERS: u8 = 1;
pub const PRIORITY: u8 = 2;
pub const RST: u8 = 3;
pub const SETTINGS: u8 = 4;
pub const PUSH: u8 = 5;
pub const PING: u8 = 6;
pub const GOAWAY: u8 = 7;
pub const WINDOW: u8 = 8;
pub const CONT: u8 = 9;

pub fn frame(kind: u8, flags: u8, sid: u32, p: &[u8]) -> Vec<u8> {
    let mut v = vec![(p.len() >> 16) as u8, (p.len() >> 8) as u8, p.len() as u8, kind, flags];
    v.extend_from_slice(&sid.to_be_bytes());
    v.extend_from_slice(p);
    v
}

#[derive(Clone, Debug, Default)]
pub struct RStream {
    /// header blocks in order: (fields, ends the stream)
    pub heads: Vec<(Vec<Field>, bool)>,
    pub data: Vec<u8>,
    pub ended: bool,
    pub ended_at: u64,
    pub rst: Option<u32>,
    pub rst_at: u64,
    /// what the other side may still send
    pub recv_window: i64,
    owed: i64,
    /// what we may still send
    pub send_window: i64,
    pub we_ended: bool,
    pub we_reset: bool,
    /// nothing of it is given back while set
    pub hold: bool,
    /// answered, at least in part
    pub touched: bool,
}
/// How received data is acknowledged.
#[derive(Clone, Debug)]
pub struct Policy {
    /// wait until this much is owed
    pub batch: i64,
    pub delay: u64,
    pub ack_settings_after: u64,
}
pub struct State {
    pub client: bool,
    pub out: Vec<u8>,
    writer: Option<Waker>,
    notify: Vec<Waker>,
    pub enc: hpack::Encoder,
    dec: hpack::Decoder,
    inbuf: Vec<u8>,
    pub streams: BTreeMap<u32, RStream>,
    /// ours, as announced
    pub my_window: u32,
    pub my_frame: usize,
    /// SETTINGS of ours that were not acknowledged yet: initial windows
    unacked: Vec<Option<u32>>,
    pub acks: u32,
    /// the other side's
    pub peer: BTreeMap<u16, u32>,
    pub peer_settings: u32,
    /// its initial window as far as it is in force
    peer_window: i64,
    pub conn_recv: i64,
    conn_owed: i64,
    pub conn_send: i64,
    pub conn_granted: i64,
    pub goaways: Vec<(u32, u32)>,
    pub goaway_at: u64,
    pub pongs: Vec<[u8; 8]>,
    pub eof: bool,
    pub err: bool,
    pub policy: Policy,
    block: Option<(u32, bool, Vec<u8>)>,
    /// we broke the rules: what comes now is not judged
    pub offended: bool,
    /// stop reading for now
    pub paused: bool,
    pub frames_in: u64,
    pub closed: bool,
    /// what comes is not judged
    pub lenient: bool,
    /// concurrency limits announced, in order; and the one in force
    pub mcs_sent: Vec<u32>,
    mcs_acked: usize,
    pub mcs: Option<u32>,
    mcs_of: Vec<bool>,
    pub over_mcs: Option<String>,
}
#[derive(Clone)]
pub struct Peer {
    pub sock: Rc<Sock>,
    pub st: Rc<RefCell<State>>,
}

impl State {
    fn grow(&mut self, window: u32) {
        let d = window as i64 - self.peer_window;
        self.peer_window = window as i64;
        for x in self.streams.values_mut() {
            x.send_window += d;
        }
        for w in std::mem::take(&mut self.notify) {
            w.wake();
        }
    }
}
impl Peer {
    pub fn new(sock: Sock, client: bool, my_window: u32, my_frame: usize, table: usize, policy: Policy) -> Peer {
        Peer {
            sock: Rc::new(sock),
            st: Rc::new(RefCell::new(State {
                client,
                out: Vec::new(),
                writer: None,
                notify: Vec::new(),
                enc: Default::default(),
                dec: hpack::Decoder::new(table),
                inbuf: Vec::new(),
                streams: BTreeMap::new(),
                my_window: 65_535,
                my_frame,
                unacked: vec![Some(my_window)],
                acks: 0,
                peer: BTreeMap::new(),
                peer_settings: 0,
                peer_window: 65_535,
                conn_recv: 65_535,
                conn_owed: 0,
                conn_send: 65_535,
                conn_granted: 65_535,
                goaways: Vec::new(),
                goaway_at: 0,
                pongs: Vec::new(),
                eof: false,
                err: false,
                policy,
                block: None,
                offended: false,
                paused: false,
                frames_in: 0,
                closed: false,
                lenient: false,
                mcs_sent: Vec::new(),
                mcs_acked: 0,
                mcs: None,
                mcs_of: Vec::new(),
                over_mcs: None,
            })),
        }
    }
    pub fn push(&self, b: &[u8]) {
        let mut s = self.st.borrow_mut();
        s.out.extend_from_slice(b);
        if let Some(w) = s.writer.take() {
            w.wake();
        }
    }
    pub fn send(&self, kind: u8, flags: u8, sid: u32, p: &[u8]) {
        tr(|| format!("  raw writes {} stream {sid} flags {flags:#x} len {}{}", name(kind), p.len(), if matches!(kind, RST | WINDOW) && p.len() == 4 { format!(" {}", be32(p)) } else { String::new() }));
        self.push(&frame(kind, flags, sid, p));
    }
    pub fn settings(&self, list: &[(u16, u32)]) {
        let mut p = Vec::new();
        let mut w = None;
        for (k, v) in list {
            p.extend_from_slice(&k.to_be_bytes());
            p.extend_from_slice(&v.to_be_bytes());
            if *k == 4 {
                w = Some(*v);
            }
        }
        tr(|| format!("  raw settings {list:?}"));
        self.st.borrow_mut().unacked.push(w);
        self.st.borrow_mut().mcs_of.push(list.iter().any(|x| x.0 == 3));
        self.send(SETTINGS, 0, 0, &p);
    }
    /// The opening: preface (client) and the first SETTINGS.
    pub fn open(&self, list: &[(u16, u32)]) {
        if self.st.borrow().client {
            self.push(PREFACE);
        }
        self.st.borrow_mut().unacked.clear();
        self.st.borrow_mut().mcs_of.clear();
        self.settings(list);
    }
    /// HEADERS, cut into CONTINUATIONs at drawn places.
    pub fn headers(&self, sid: u32, fields: &[Field], end: bool, fancy: bool) {
        let block = self.st.borrow_mut().enc.encode(fields);
        self.header_block(sid, &block, end, fancy);
    }
    pub fn header_block(&self, sid: u32, block: &[u8], end: bool, fancy: bool) {
        let max = self.st.borrow().peer.get(&5).copied().unwrap_or(16_384).min(16_384) as usize - 300;
        let mut cuts = vec![0];
        let mut p = 0;
        while block.len() - p > max {
            p += max;
            cuts.push(p);
        }
        if fancy && wc(1, 3) {
            for _ in 0..wr(1, 3) {
                cuts.push(wd(block.len() as u32 + 1) as usize);
            }
        }
        cuts.push(block.len());
        cuts.sort();
        if !fancy {
            cuts.dedup();
        }
        if cuts.len() < 2 {
            cuts.push(block.len());
        }
        let n = cuts.len() - 1;
        for i in 0..n {
            let part = &block[cuts[i]..cuts[i + 1]];
            let fin = if i + 1 == n { 4 } else { 0 };
            if i > 0 {
                self.send(CONT, fin, sid, part);
                continue;
            }
            let mut flags = fin | end as u8;
            let mut p = Vec::new();
            let pad = if fancy && wc(1, 5) { Some(pick(&[0u8, 1, 7, 200])) } else { None };
            if let Some(n) = pad {
                flags |= 8;
                p.push(n);
            }
            if fancy && wc(1, 5) {
                flags |= 0x20;
                p.extend_from_slice(&(if sid == 1 { 3u32 } else { 1 }).to_be_bytes());
                p.push(wd(256) as u8);
            }
            p.extend_from_slice(part);
            if let Some(n) = pad {
                p.extend(std::iter::repeat(0).take(n as usize));
            }
            self.send(HEADERS, flags, sid, &p);
        }
        self.touch(sid);
        if end {
            self.st.borrow_mut().streams.get_mut(&sid).unwrap().we_ended = true;
        }
    }
    pub fn touch(&self, sid: u32) {
        let mut s = self.st.borrow_mut();
        let (w, r) = (s.peer_window, s.my_window as i64);
        s.streams.entry(sid).or_insert_with(|| RStream { recv_window: r, send_window: w, ..Default::default() });
    }
    /// More window for a stream than was used.
    pub fn widen(&self, sid: u32, by: u32) {
        self.touch(sid);
        self.st.borrow_mut().streams.get_mut(&sid).unwrap().recv_window += by as i64;
        self.send(WINDOW, 0, sid, &by.to_be_bytes());
    }
    pub fn rst(&self, sid: u32, code: u32) {
        self.touch(sid);
        self.st.borrow_mut().streams.get_mut(&sid).unwrap().we_reset = true;
        self.send(RST, 0, sid, &code.to_be_bytes());
    }
    /// Sends body bytes as the windows allow; false if the stream or the
    /// connection ended first.
    pub async fn data(&self, sid: u32, d: &[u8], end: bool, fancy: bool) -> bool {
        let mut p = 0;
        loop {
            if p == d.len() && (p > 0 && !end || p == 0 && d.is_empty() && !end) {
                return true;
            }
            let roomy = {
                let s = self.st.borrow();
                s.conn_send.min(s.streams.get(&sid).map_or(0, |x| x.send_window)) > 300
            };
            let pad = if fancy && roomy && wc(1, 8) { Some(pick(&[0u8, 1, 9, 255])) } else { None };
            let over = pad.map_or(0, |n| n as usize + 1);
            let want = (d.len() - p).min(if fancy && wc(1, 3) { wr(1, 900) as usize } else { 16_384 - 300 });
            // window for it
            let n = {
                let me = self.clone();
                let mut waited = false;
                std::future::poll_fn(move |cx| {
                    let mut s = me.st.borrow_mut();
                    if s.eof || s.err {
                        return Poll::Ready(None);
                    }
                    let c = s.conn_send;
                    let Some(x) = s.streams.get(&sid) else { return Poll::Ready(None) };
                    if x.rst.is_some() || x.we_reset {
                        return Poll::Ready(None);
                    }
                    let w = c.min(x.send_window);
                    if want == 0 && pad.is_none() || w > over as i64 {
                        return Poll::Ready(Some(want.min((w - over as i64).max(0) as usize)));
                    }
                    if !waited {
                        waited = true;
                        drop(s);
                        count("raw_window_waits");
                        s = me.st.borrow_mut();
                    }
                    s.notify.push(cx.waker().clone());
                    Poll::Pending
                })
                .await
            };
            let Some(n) = n else { return false };
            let mut flags = 0;
            let mut v = Vec::new();
            if let Some(k) = pad {
                flags |= 8;
                v.push(k);
            }
            v.extend_from_slice(&d[p..p + n]);
            if let Some(k) = pad {
                v.extend(std::iter::repeat(0).take(k as usize));
            }
            p += n;
            let last = end && p == d.len();
            if last {
                flags |= 1;
            }
            {
                let mut s = self.st.borrow_mut();
                s.conn_send -= v.len() as i64;
                let x = s.streams.get_mut(&sid).unwrap();
                x.send_window -= v.len() as i64;
                x.we_ended |= last;
            }
            self.send(DATA, flags, sid, &v);
            if last || p == d.len() && !end {
                return true;
            }
            yield_now().await;
        }
    }
    /// Waits until the condition holds or the connection is over.
    pub async fn until(&self, mut f: impl FnMut(&State) -> bool) -> bool {
        let me = self.clone();
        std::future::poll_fn(move |cx| {
            let mut s = me.st.borrow_mut();
            if f(&s) {
                return Poll::Ready(true);
            }
            if s.eof || s.err {
                return Poll::Ready(false);
            }
            s.notify.push(cx.waker().clone());
            Poll::Pending
        })
        .await
    }
    /// Everything written so far was taken by the transport.
    pub async fn flushed(&self) {
        self.until(|s| s.out.is_empty()).await;
    }
    pub fn wake(&self) {
        let ws: Vec<Waker> = std::mem::take(&mut self.st.borrow_mut().notify);
        for w in ws {
            w.wake();
        }
    }
    pub fn pause(&self, on: bool) {
        self.st.borrow_mut().paused = on;
        self.wake();
    }
    /// No more writing: the transport is shut down after what is queued.
    pub fn close(&self) {
        let mut s = self.st.borrow_mut();
        s.closed = true;
        if let Some(w) = s.writer.take() {
            w.wake();
        }
    }
    pub fn spawn(&self) {
        let me = self.clone();
        spawn_in(8, "raw-writer", async move {
            loop {
                let chunk = {
                    let me = me.clone();
                    std::future::poll_fn(move |cx| {
                        let mut s = me.st.borrow_mut();
                        if s.out.is_empty() {
                            if s.closed {
                                return Poll::Ready(None);
                            }
                            s.writer = Some(cx.waker().clone());
                            return Poll::Pending;
                        }
                        let n = s.out.len().min(65_536);
                        Poll::Ready(Some(s.out[..n].to_vec()))
                    })
                    .await
                };
                let Some(chunk) = chunk else {
                    let _ = me.sock.shutdown().await;
                    me.wake();
                    return;
                };
                if me.sock.write_all(&chunk).await.is_err() {
                    me.st.borrow_mut().err = true;
                    me.wake();
                    return;
                }
                me.st.borrow_mut().out.drain(..chunk.len());
                let _ = me.sock.flush().await;
                me.wake();
            }
        });
        let me = self.clone();
        spawn_in(8, "raw-reader", async move {
            loop {
                if me.st.borrow().paused {
                    count("reader_pauses");
                    me.until(|s| !s.paused).await;
                }
                match me.sock.read(16_384).await {
                    Ok(v) if !v.is_empty() => {
                        me.st.borrow_mut().inbuf.extend(v);
                        if !me.parse() {
                            return;
                        }
                    }
                    Ok(_) => {
                        me.st.borrow_mut().eof = true;
                        me.wake();
                        return;
                    }
                    Err(_) => {
                        me.st.borrow_mut().err = true;
                        me.wake();
                        return;
                    }
                }
            }
        });
    }
    fn parse(&self) -> bool {
        loop {
            let f = {
                let mut s = self.st.borrow_mut();
                if !s.client && s.frames_in == 0 && s.peer_settings == 0 && s.inbuf.starts_with(&PREFACE[..1]) {
                    if s.inbuf.len() < PREFACE.len() {
                        break;
                    }
                    if &s.inbuf[..PREFACE.len()] != PREFACE {
                        violate("preface", "the client preface is wrong".into());
                        return false;
                    }
                    s.inbuf.drain(..PREFACE.len());
                }
                let b = &s.inbuf;
                if b.len() < 9 {
                    break;
                }
                let len = (b[0] as usize) << 16 | (b[1] as usize) << 8 | b[2] as usize;
                if b.len() < 9 + len {
                    if len > s.my_frame && !s.lenient {
                        violate("frame-size", format!("a frame of {len} bytes, but the limit is {}", s.my_frame));
                        return false;
                    }
                    break;
                }
                let (kind, flags, sid) = (b[3], b[4], be32(&b[5..]) & 0x7fff_ffff);
                let p = b[9..9 + len].to_vec();
                s.inbuf.drain(..9 + len);
                s.frames_in += 1;
                (kind, flags, sid, p)
            };
            if let Err((class, e)) = self.take(f.0, f.1, f.2, f.3) {
                if self.st.borrow().lenient {
                    continue;
                }
                violate(class, e);
                return false;
            }
        }
        self.wake();
        true
    }
    fn take(&self, kind: u8, flags: u8, sid: u32, mut p: Vec<u8>) -> Result<(), (&'static str, String)> {
        tr(|| {
            format!(
                "  raw reads {} stream {sid} flags {flags:#x} len {}{}",
                name(kind),
                p.len(),
                match kind {
                    RST | WINDOW if p.len() == 4 => format!(" {}", be32(&p)),
                    GOAWAY if p.len() >= 8 => format!(" last={} code={}", be32(&p), be32(&p[4..])),
                    _ => String::new(),
                }
            )
        });
        let mut later: Vec<(u64, u8, u8, u32, Vec<u8>)> = Vec::new();
        let mut grows = None;
        let mut s = self.st.borrow_mut();
        let s = &mut *s;
        let bad = |c: &'static str, e: String| Err((c, format!("{} on stream {sid}: {e}", name(kind))));
        if p.len() > s.my_frame {
            return bad("frame-size", format!("{} bytes, but the limit is {}", p.len(), s.my_frame));
        }
        if s.peer_settings == 0 && (kind != SETTINGS || flags & 1 != 0) {
            return bad("preface", "before SETTINGS".into());
        }
        if s.block.is_some() != (kind == CONT) {
            return bad("wire", "a header block is not contiguous".into());
        }
        // streams the other side may use
        let known = |s: &State| s.streams.contains_key(&sid);
        match kind {
            DATA => {
                if !known(s) {
                    return bad("wire", "unknown stream".into());
                }
                let n = p.len() as i64;
                s.conn_recv -= n;
                if s.conn_recv < 0 {
                    return bad("flow-control", format!("connection window exceeded by {}", -s.conn_recv));
                }
                s.conn_owed += n;
                let batch = s.policy.batch;
                let x = s.streams.get_mut(&sid).unwrap();
                x.recv_window -= n;
                if x.recv_window < 0 && n > 0 {
                    return bad("flow-control", format!("stream window exceeded by {}", -x.recv_window));
                }
                if x.heads.is_empty() && !x.we_reset {
                    return bad("wire", "before the head".into());
                }
                if x.ended || x.rst.is_some() {
                    return bad("wire", format!("after its end ({} {:?})", x.ended, x.rst));
                }
                if flags & 8 != 0 {
                    let k = p[0] as usize;
                    p = p[1..p.len().saturating_sub(k).max(1)].to_vec();
                }
                x.data.extend_from_slice(&p);
                if flags & 1 != 0 {
                    x.ended = true;
                    x.ended_at = now();
                }
                x.owed += n;
                let d = s.policy.delay;
                if !x.hold && (x.owed >= batch || x.recv_window <= 0) && x.owed > 0 && !x.ended && !x.we_reset {
                    later.push((d, WINDOW, 0, sid, (x.owed as u32).to_be_bytes().to_vec()));
                    x.recv_window += x.owed;
                    x.owed = 0;
                }
                if s.conn_owed >= batch.min(30_000) && s.conn_owed > 0 || s.conn_recv <= 0 {
                    later.push((d, WINDOW, 0, 0, (s.conn_owed as u32).to_be_bytes().to_vec()));
                    s.conn_recv += s.conn_owed;
                    s.conn_owed = 0;
                }
            }
            HEADERS | CONT => {
                let (end, mut block) = if kind == HEADERS {
                    let mut q = &p[..];
                    if flags & 8 != 0 {
                        q = &q[1..q.len() - q[0] as usize];
                    }
                    if flags & 0x20 != 0 {
                        q = &q[5..];
                    }
                    (flags & 1 != 0, q.to_vec())
                } else {
                    let (bs, e, b) = s.block.take().unwrap();
                    if bs != sid {
                        return bad("wire", "continuation of another stream".into());
                    }
                    let mut b = b;
                    b.extend_from_slice(&p);
                    (e, b)
                };
                if flags & 4 == 0 {
                    s.block = Some((sid, end, std::mem::take(&mut block)));
                    return Ok(());
                }
                let fields = match s.dec.decode(&block) {
                    Ok(f) => f,
                    Err(e) => return bad("hpack", e),
                };
                tr(|| format!("    {}", fields.iter().map(|f| format!("{}: {}", String::from_utf8_lossy(&f.0), shorten(&f.1))).collect::<Vec<_>>().join(" | ")));
                if !s.client && !known(s) {
                    if sid % 2 == 0 || s.streams.keys().rev().find(|k| *k % 2 == 1).is_some_and(|k| *k > sid) {
                        return bad("wire", "stream id out of order".into());
                    }
                    let (w, r) = (s.peer_window, s.my_window as i64);
                    s.streams.insert(sid, RStream { recv_window: r, send_window: w, ..Default::default() });
                    if let Some(m) = s.mcs.filter(|_| !s.offended) {
                        let busy = s.streams.values().filter(|x| x.rst.is_none() && !x.we_reset && !(x.ended && x.we_ended)).count();
                        if busy > m as usize && s.over_mcs.is_none() {
                            s.over_mcs = Some(format!("stream {sid} makes {busy} at once, but only {m} are allowed"));
                        }
                    }
                }
                let Some(x) = s.streams.get_mut(&sid) else { return bad("wire", "unknown stream".into()) };
                if x.ended || x.rst.is_some() {
                    return bad("wire", "after its end".into());
                }
                x.heads.push((fields, end));
                if end {
                    x.ended = true;
                    x.ended_at = now();
                }
            }
            RST => {
                if !s.client && p.len() == 4 && !known(s) && sid % 2 == 1 {
                    // the h2 crate resets streams that a GOAWAY kept from
                    // opening as if they had been
                    return Ok(());
                }
                if p.len() != 4 || !known(s) {
                    return bad("wire", "bad RST_STREAM".into());
                }
                let x = s.streams.get_mut(&sid).unwrap();
                if x.rst.is_none() {
                    x.rst = Some(be32(&p));
                    x.rst_at = now();
                }
            }
            SETTINGS => {
                if sid != 0 || p.len() % 6 != 0 {
                    return bad("wire", "bad SETTINGS".into());
                }
                if flags & 1 != 0 {
                    if s.unacked.is_empty() {
                        return bad("wire", "an acknowledgement too many".into());
                    }
                    s.acks += 1;
                    if !s.mcs_of.is_empty() && s.mcs_of.remove(0) {
                        s.mcs = s.mcs_sent.get(s.mcs_acked).copied();
                        s.mcs_acked += 1;
                    }
                    if let Some(w) = s.unacked.remove(0) {
                        let d = w as i64 - s.my_window as i64;
                        s.my_window = w;
                        for (id, x) in s.streams.iter_mut() {
                            x.recv_window += d;
                            if x.recv_window <= 0 && x.owed > 0 && !x.hold && !x.ended && !x.we_reset {
                                later.push((0, WINDOW, 0, *id, (x.owed as u32).to_be_bytes().to_vec()));
                                x.recv_window += x.owed;
                                x.owed = 0;
                            }
                        }
                    }
                } else {
                    s.peer_settings += 1;
                    for c in p.chunks_exact(6) {
                        let (k, v) = (u16::from_be_bytes([c[0], c[1]]), be32(&c[2..]));
                        if k == 1 {
                            s.enc.max = v as usize;
                        }
                        if k == 4 && !(s.peer_settings > 1 && s.policy.ack_settings_after > 0) {
                            s.grow(v);
                        } else if k == 4 {
                            // in force from the acknowledgement on
                            grows = Some(v);
                        }
                        s.peer.insert(k, v);
                    }
                    later.push((s.policy.ack_settings_after, SETTINGS, 1, 0, vec![]));
                }
            }
            PING => {
                if p.len() != 8 || sid != 0 {
                    return bad("wire", "bad PING".into());
                }
                if flags & 1 != 0 {
                    s.pongs.push(p[..8].try_into().unwrap());
                } else {
                    later.push((0, PING, 1, 0, p));
                }
            }
            GOAWAY => {
                if p.len() < 8 || sid != 0 {
                    return bad("wire", "bad GOAWAY".into());
                }
                let g = (be32(&p) & 0x7fff_ffff, be32(&p[4..]));
                if let Some(l) = s.goaways.last() {
                    if l.0 < g.0 {
                        return bad("wire", format!("the mark rises from {} to {}", l.0, g.0));
                    }
                }
                s.goaways.push(g);
                s.goaway_at = now();
            }
            WINDOW => {
                let n = be32(&p) as i64;
                if p.len() != 4 || n == 0 {
                    return bad("wire", "bad WINDOW_UPDATE".into());
                }
                if sid == 0 {
                    s.conn_send += n;
                    s.conn_granted += n;
                    if s.conn_send > 0x7fff_ffff {
                        return bad("flow-control", "connection window overflows".into());
                    }
                } else if let Some(x) = s.streams.get_mut(&sid) {
                    x.send_window += n;
                    if x.send_window > 0x7fff_ffff {
                        return bad("flow-control", "stream window overflows".into());
                    }
                } else {
                    return bad("wire", "unknown stream".into());
                }
            }
            PUSH => return bad("wire", "push".into()),
            PRIORITY => {}
            _ => return bad("wire", format!("frame type {kind}")),
        }
        for (d, k, f, sid, p) in later {
            let me = self.clone();
            if d == 0 {
                // after this borrow
                s.out.extend(frame(k, f, sid, &p));
                if let Some(w) = s.writer.take() {
                    w.wake();
                }
            } else {
                after(d, move || {
                    me.push(&frame(k, f, sid, &p));
                    if let Some(v) = grows.filter(|_| k == SETTINGS) {
                        me.st.borrow_mut().grow(v);
                    }
                });
            }
        }
        Ok(())
    }
}
pub fn name(k: u8) -> &'static str {
    ["DATA", "HEADERS", "PRIORITY", "RST_STREAM", "SETTINGS", "PUSH_PROMISE", "PING", "GOAWAY", "WINDOW_UPDATE", "CONTINUATION"].get(k as usize).copied().unwrap_or("?")
}
pub fn field(n: &str, v: &[u8]) -> Field {
    (n.as_bytes().to_vec(), v.to_vec())
}
