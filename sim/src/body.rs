//! Scripted outgoing bodies and the checked reader for incoming ones.
use crate::core::*;
use bytes::{Buf, Bytes};
use http::HeaderMap;
use http_body::{Body, Frame, SizeHint};
use std::collections::VecDeque;
use std::future::Future;
use std::io::IoSlice;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Debug, Clone)]
pub struct SimErr(pub &'static str);
impl std::fmt::Display for SimErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}
impl std::error::Error for SimErr {}

/// A `Buf` made of several segments.
#[derive(Debug, Default)]
pub struct SimBuf {
    segs: VecDeque<Bytes>,
    multi: bool,
}
impl SimBuf {
    pub fn new(data: Bytes, pieces: usize) -> Self {
        let mut segs = VecDeque::new();
        let mut d = data;
        if pieces > 1 && d.len() >= pieces {
            let step = d.len() / pieces;
            for _ in 0..pieces - 1 {
                segs.push_back(d.split_to(step));
            }
        }
        segs.push_back(d);
        SimBuf { segs, multi: pieces > 1 }
    }
}
impl Buf for SimBuf {
    fn remaining(&self) -> usize {
        self.segs.iter().map(|b| b.len()).sum()
    }
    fn chunk(&self) -> &[u8] {
        self.segs.iter().find(|b| !b.is_empty()).map(|b| &b[..]).unwrap_or(&[])
    }
    fn advance(&mut self, mut n: usize) {
        while n > 0 {
            let f = self.segs.front_mut().expect("advance past end");
            if f.len() > n {
                f.advance(n);
                return;
            }
            n -= f.len();
            self.segs.pop_front();
        }
        while self.segs.front().map_or(false, |b| b.is_empty()) {
            self.segs.pop_front();
        }
    }
    fn chunks_vectored<'a>(&'a self, dst: &mut [IoSlice<'a>]) -> usize {
        let mut n = 0;
        for b in self.segs.iter().filter(|b| !b.is_empty()) {
            if n == dst.len() || (!self.multi && n == 1) {
                break;
            }
            dst[n] = IoSlice::new(b);
            n += 1;
        }
        n
    }
}

#[derive(Clone)]
pub enum Step {
    Data(Bytes, usize),
    Trailers(HeaderMap),
    /// not ready for this long
    Pend(u64),
    /// wakes itself at once
    Yield,
    Wait(Gate),
    Err,
    Hang,
}
impl std::fmt::Debug for Step {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Step::Data(b, p) => write!(f, "Data({}/{p})", b.len()),
            Step::Trailers(t) => write!(f, "Trailers({})", t.len()),
            Step::Pend(d) => write!(f, "Pend({}us)", d / 1000),
            Step::Yield => f.write_str("Yield"),
            Step::Wait(_) => f.write_str("Wait"),
            Step::Err => f.write_str("Err"),
            Step::Hang => f.write_str("Hang"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hint {
    Unknown,
    /// exact size of what the steps will yield
    Exact,
    /// a declared size that the steps do not keep
    Lie(u64),
    /// no size of its own; a length field given beside it says this
    Says(u64),
    Lower,
    Upper,
}

#[derive(Default, Debug, Clone)]
pub struct BodyStat {
    pub name: String,
    /// data bytes handed out
    pub pulled: usize,
    pub dropped: bool,
    pub ended: bool,
    pub errored: bool,
    pub polls: u64,
    pub polled_after_end: bool,
    pub dropped_at: u64,
    first_written: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct BodySpec {
    pub steps: Vec<Step>,
    pub hint: Hint,
    /// is_end_stream() tells the truth (otherwise always false)
    pub eos: bool,
}
impl BodySpec {
    pub fn empty() -> Self {
        BodySpec { steps: Vec::new(), hint: Hint::Exact, eos: true }
    }
    pub fn data(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for s in &self.steps {
            match s {
                Step::Data(b, _) => v.extend_from_slice(b),
                Step::Err | Step::Hang => break,
                _ => {}
            }
        }
        v
    }
    pub fn len(&self) -> u64 {
        self.steps.iter().map(|s| if let Step::Data(b, _) = s { b.len() as u64 } else { 0 }).sum()
    }
    pub fn trailers(&self) -> Option<HeaderMap> {
        self.steps.iter().find_map(|s| if let Step::Trailers(t) = s { Some(t.clone()) } else { None })
    }
    pub fn fails(&self) -> bool {
        self.steps.iter().any(|s| matches!(s, Step::Err))
    }
    pub fn hangs(&self) -> bool {
        self.steps.iter().any(|s| matches!(s, Step::Hang))
    }
    pub fn declared(&self) -> Option<u64> {
        match self.hint {
            Hint::Exact => Some(self.len()),
            Hint::Lie(n) | Hint::Says(n) => Some(n),
            _ => None,
        }
    }
    pub fn build(&self, name: impl Into<String>) -> SimBody {
        let id = with(|w| {
            w.bodies.push(BodyStat { name: name.into(), ..BodyStat::default() });
            w.bodies.len() - 1
        });
        SimBody {
            id,
            declared: self.declared(),
            cap: self.declared().unwrap_or(u64::MAX) as usize,
            left: self.len(),
            steps: self.steps.clone().into(),
            hint: self.hint,
            eos: self.eos,
            sleep: None,
            wait: None,
            yielded: false,
            over: false,
        }
    }
}

pub struct SimBody {
    pub id: usize,
    steps: VecDeque<Step>,
    hint: Hint,
    declared: Option<u64>,
    cap: usize,
    left: u64,
    eos: bool,
    sleep: Option<SimSleep>,
    wait: Option<Pin<Box<dyn Future<Output = ()>>>>,
    yielded: bool,
    over: bool,
}
impl std::fmt::Debug for SimBody {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimBody#{}", self.id)
    }
}
impl SimBody {
    pub fn empty() -> Self {
        BodySpec::empty().build("empty")
    }
}
impl Body for SimBody {
    type Data = SimBuf;
    type Error = SimErr;
    fn poll_frame(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
    ) -> Poll<Option<Result<Frame<SimBuf>, SimErr>>> {
        let id = self.id;
        let me = &mut *self;
        with(|w| {
            let b = &mut w.bodies[id];
            b.polls += 1;
            if b.ended || b.errored {
                b.polled_after_end = true;
            }
        });
        if me.over {
            return Poll::Ready(None);
        }
        loop {
            match me.steps.front() {
                None => {
                    me.over = true;
                    with(|w| w.bodies[id].ended = true);
                    return Poll::Ready(None);
                }
                Some(Step::Data(..)) => {
                    if let Some(Step::Data(b, p)) = me.steps.pop_front() {
                        let cap = me.cap;
                        let over = with(|w| {
                            let mut over = None;
                            if let (Some((c, side, limit)), true) = (w.pull_bound, w.bodies[id].name.starts_with(w.pull_prefix)) {
                                let wr = w.net.conns[c].dir[side].written.len();
                                let b = &mut w.bodies[id];
                                let base = *b.first_written.get_or_insert(wr);
                                let out = b.pulled.min(cap).saturating_sub(wr - base);
                                if out > limit {
                                    over = Some((out, limit));
                                }
                            }
                            w.bodies[id].pulled += b.len();
                            over
                        });
                        if let Some((out, limit)) = over {
                            violate("unbounded-pull", format!("body#{id}: asked for more with {out} bytes taken and not written (buffer {limit})"));
                        }
                        tr(|| format!("  body#{id} yields {} bytes", b.len()));
                        me.left -= b.len() as u64;
                        if let Some(d) = &mut me.declared {
                            *d = d.saturating_sub(b.len() as u64);
                        }
                        return Poll::Ready(Some(Ok(Frame::data(SimBuf::new(b, p)))));
                    }
                }
                Some(Step::Trailers(_)) => {
                    if let Some(Step::Trailers(t)) = me.steps.pop_front() {
                        tr(|| format!("  body#{id} yields trailers"));
                        return Poll::Ready(Some(Ok(Frame::trailers(t))));
                    }
                }
                Some(Step::Pend(d)) => {
                    let d = *d;
                    let s = me.sleep.get_or_insert_with(|| sleep(d));
                    match Pin::new(s).poll(cx) {
                        Poll::Ready(()) => {
                            me.sleep = None;
                            me.steps.pop_front();
                        }
                        Poll::Pending => return Poll::Pending,
                    }
                }
                Some(Step::Yield) => {
                    if me.yielded {
                        me.yielded = false;
                        me.steps.pop_front();
                    } else {
                        me.yielded = true;
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                }
                Some(Step::Wait(g)) => {
                    let g = g.clone();
                    let f = me.wait.get_or_insert_with(|| Box::pin(async move { g.wait().await }));
                    match f.as_mut().poll(cx) {
                        Poll::Ready(()) => {
                            me.wait = None;
                            me.steps.pop_front();
                        }
                        Poll::Pending => return Poll::Pending,
                    }
                }
                Some(Step::Err) => {
                    me.over = true;
                    with(|w| w.bodies[id].errored = true);
                    count("body_errors");
                    tr(|| format!("  body#{id} fails"));
                    return Poll::Ready(Some(Err(SimErr("body failed"))));
                }
                Some(Step::Hang) => return Poll::Pending,
            }
        }
    }
    fn is_end_stream(&self) -> bool {
        self.eos && (self.over || self.steps.is_empty())
    }
    fn size_hint(&self) -> SizeHint {
        match self.hint {
            Hint::Unknown | Hint::Says(_) => SizeHint::default(),
            Hint::Exact => SizeHint::with_exact(self.left),
            Hint::Lie(_) => SizeHint::with_exact(self.declared.unwrap_or(0)),
            Hint::Lower => {
                let mut h = SizeHint::default();
                h.set_lower(self.left / 2);
                h
            }
            Hint::Upper => {
                let mut h = SizeHint::default();
                h.set_upper(self.left + 5);
                h
            }
        }
    }
}
impl Drop for SimBody {
    fn drop(&mut self) {
        let id = self.id;
        let _ = try_with(|w| {
            w.bodies[id].dropped = true;
            w.bodies[id].dropped_at = w.now;
        });
        tr(|| format!("  body#{id} dropped"));
    }
}

// ---- checked reader -------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum BodyEnd {
    /// not finished
    Open,
    Clean,
    Err(String),
    /// the reader let go of it
    Dropped,
}
/// What a reader saw of one incoming body.
#[derive(Clone, Debug)]
pub struct BodyLog {
    pub data: Vec<u8>,
    pub trailers: Option<HeaderMap>,
    pub end: BodyEnd,
    hints: Vec<(u64, u64, Option<u64>)>,
    pub frames: usize,
    pub end_at: u64,
    pub first_exact: Option<u64>,
    eos_claimed: bool,
    /// HTTP/2: what had been read when the end was first claimed
    pub claimed_at: Option<(usize, bool)>,
    pub h2: bool,
    pub err_no_error: bool,
}
impl BodyLog {
    pub fn new() -> Self {
        BodyLog {
            data: Vec::new(),
            trailers: None,
            end: BodyEnd::Open,
            hints: Vec::new(),
            frames: 0,
            end_at: 0,
            first_exact: None,
            eos_claimed: false,
            claimed_at: None,
            h2: false,
            err_no_error: false,
        }
    }
    pub fn clean(&self) -> bool {
        self.end == BodyEnd::Clean
    }
    pub fn errored(&self) -> bool {
        matches!(self.end, BodyEnd::Err(_))
    }
}

pub type LogRef = std::rc::Rc<std::cell::RefCell<BodyLog>>;
pub fn new_log() -> LogRef {
    std::rc::Rc::new(std::cell::RefCell::new(BodyLog::new()))
}

/// A `hyper::body::Incoming` (or similar) whose reports are checked (C20).
pub struct CheckedBody<B> {
    body: B,
    pub log: LogRef,
    name: String,
}
impl<B> CheckedBody<B>
where
    B: Body<Data = Bytes, Error = hyper::Error> + Unpin,
{
    pub fn new(body: B, name: impl Into<String>) -> Self {
        let h = body.size_hint();
        let log = new_log();
        log.borrow_mut().first_exact = h.exact();
        let c = CheckedBody { body, log, name: name.into() };
        c.observe();
        c
    }
    /// The same for a body received over HTTP/2.
    pub fn new_h2(body: B, name: impl Into<String>) -> Self {
        let c = Self::new(body, name);
        c.log.borrow_mut().h2 = true;
        c
    }
    fn observe(&self) {
        let h = self.body.size_hint();
        let e = self.body.is_end_stream();
        let mut l = self.log.borrow_mut();
        let n = l.data.len() as u64;
        l.hints.push((n, h.lower(), h.upper()));
        if let Some(u) = h.upper() {
            if h.lower() > u {
                violate("size-hint", format!("{}: lower {} above upper {}", self.name, h.lower(), u));
            }
        }
        if e {
            l.eos_claimed = true;
            if l.claimed_at.is_none() {
                l.claimed_at = Some((l.data.len(), l.trailers.is_some()));
            }
            if h.lower() > 0 {
                violate("size-hint", format!("{}: at end but lower bound {}", self.name, h.lower()));
            }
        }
        if l.end == BodyEnd::Clean && h.lower() > 0 {
            violate("size-hint", format!("{}: ended but lower bound {}", self.name, h.lower()));
        }
    }
    pub fn poll(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<Frame<Bytes>, hyper::Error>>> {
        let r = Pin::new(&mut self.body).poll_frame(cx);
        let name = &self.name;
        match &r {
            Poll::Pending => {}
            Poll::Ready(x) => {
                let mut l = self.log.borrow_mut();
                if l.eos_claimed && l.end == BodyEnd::Open {
                    match x {
                        None => {}
                        Some(Ok(_)) => violate("end-stream-lie", format!("{name}: a frame after is_end_stream()")),
                        // over HTTP/2 the stream may fail after its end was received
                        Some(Err(_)) if l.h2 => {}
                        Some(Err(e)) => {
                            violate("end-stream-lie", format!("{name}: error {e:?} after is_end_stream()"))
                        }
                    }
                }
                match x {
                    Some(Ok(f)) => {
                        l.frames += 1;
                        if l.end != BodyEnd::Open {
                            violate("frame-after-end", format!("{name}: a frame after {:?}", l.end));
                        }
                        if let Some(d) = f.data_ref() {
                            if l.trailers.is_some() {
                                violate("data-after-trailers", name.clone());
                            }
                            l.data.extend_from_slice(d);
                            let d2 = d.clone();
                            tr(|| format!("  {name}: read {} bytes {}", d2.len(), shorten(&d2)));
                            note_bytes(d);
                            if d.is_empty() && l.frames > 200_000 {
                                violate("empty-frames", name.clone());
                            }
                        } else if let Some(t) = f.trailers_ref() {
                            if l.trailers.is_some() {
                                violate("double-trailers", name.clone());
                            }
                            tr(|| format!("  {name}: trailers {}", t.len()));
                            note(0x7a11);
                            l.trailers = Some(t.clone());
                        }
                    }
                    Some(Err(e)) => {
                        if l.end == BodyEnd::Clean {
                            violate("error-after-end", format!("{name}: {e:?} after the end"));
                        }
                        if l.end == BodyEnd::Open {
                            l.end = BodyEnd::Err(format!("{e:?}"));
                            l.end_at = now();
                        }
                        tr(|| format!("  {name}: body error {e:?}"));
                        note(0xe44b);
                    }
                    None => {
                        if l.end == BodyEnd::Open {
                            l.end = BodyEnd::Clean;
                            l.end_at = now();
                            note(0xe0f);
                            tr(|| format!("  {name}: body end after {} bytes", l.data.len()));
                            let total = l.data.len() as u64;
                            for (n, lo, hi) in &l.hints {
                                let rest = total - n;
                                if *lo > rest || hi.map_or(false, |h| h < rest) {
                                    violate(
                                        "size-hint",
                                        format!("{name}: after {n} of {total} bytes the hint was {lo}..{hi:?}"),
                                    );
                                    break;
                                }
                            }
                        }
                    }
                }
                drop(l);
                self.observe();
            }
        }
        r
    }
    pub async fn frame(&mut self) -> Option<Result<Frame<Bytes>, hyper::Error>> {
        std::future::poll_fn(|cx| self.poll(cx)).await
    }
    /// Reads to the end; then polls once more.
    pub async fn read_all(&mut self) {
        loop {
            match self.frame().await {
                Some(Ok(_)) => {}
                Some(Err(_)) => return,
                None => {
                    // once ended it yields nothing more
                    std::future::poll_fn(|cx| {
                        let _ = self.poll(cx);
                        Poll::Ready(())
                    })
                    .await;
                    return;
                }
            }
        }
    }
}
impl<B> Drop for CheckedBody<B> {
    fn drop(&mut self) {
        let mut l = self.log.borrow_mut();
        if l.end == BodyEnd::Open {
            l.end = BodyEnd::Dropped;
        }
    }
}

/// Forwards an incoming body as an outgoing one (echo), checked on the way.
pub struct EchoBody<B> {
    pub inner: CheckedBody<B>,
    pub forward_trailers: bool,
    pub exact: Option<u64>,
}
impl<B> Body for EchoBody<B>
where
    B: Body<Data = Bytes, Error = hyper::Error> + Unpin,
{
    type Data = SimBuf;
    type Error = SimErr;
    fn poll_frame(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
    ) -> Poll<Option<Result<Frame<SimBuf>, SimErr>>> {
        loop {
            return match self.inner.poll(cx) {
                Poll::Ready(Some(Ok(f))) => {
                    if f.is_data() {
                        let d = f.into_data().ok().unwrap();
                        if let Some(e) = &mut self.exact {
                            *e = e.saturating_sub(d.len() as u64);
                        }
                        Poll::Ready(Some(Ok(Frame::data(SimBuf::new(d, 1)))))
                    } else if self.forward_trailers {
                        Poll::Ready(Some(Ok(Frame::trailers(f.into_trailers().ok().unwrap()))))
                    } else {
                        continue;
                    }
                }
                Poll::Ready(Some(Err(_))) => Poll::Ready(Some(Err(SimErr("echo source failed")))),
                Poll::Ready(None) => Poll::Ready(None),
                Poll::Pending => Poll::Pending,
            };
        }
    }
    fn size_hint(&self) -> SizeHint {
        match self.exact {
            Some(n) => SizeHint::with_exact(n),
            None => SizeHint::default(),
        }
    }
}

/// Either kind of outgoing body.
pub enum OutBody {
    Sim(SimBody),
    Echo(EchoBody<hyper::body::Incoming>),
}
impl Body for OutBody {
    type Data = SimBuf;
    type Error = SimErr;
    fn poll_frame(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
    ) -> Poll<Option<Result<Frame<SimBuf>, SimErr>>> {
        match self.get_mut() {
            OutBody::Sim(b) => Pin::new(b).poll_frame(cx),
            OutBody::Echo(b) => Pin::new(b).poll_frame(cx),
        }
    }
    fn is_end_stream(&self) -> bool {
        match self {
            OutBody::Sim(b) => b.is_end_stream(),
            OutBody::Echo(b) => b.is_end_stream(),
        }
    }
    fn size_hint(&self) -> SizeHint {
        match self {
            OutBody::Sim(b) => b.size_hint(),
            OutBody::Echo(b) => b.size_hint(),
        }
    }
}

/// Waits without reading a body that has `left` bytes to come; what the
/// connection takes from the transport meanwhile is bounded.
pub async fn hold(d: u64, left: Option<u64>) {
    hold_at(None, d, left).await
}
/// The same for a body that side `at` of the connection receives.
pub async fn hold_at(at: Option<usize>, d: u64, left: Option<u64>) {
    let b = with(|w| w.read_bound.filter(|b| at.map(|a| a == b.1).unwrap_or(true)).map(|(c, side, limit)| (c, side, limit, w.net.conns[c].dir[1 - side].read_total)));
    if d > 0 {
        sleep(d).await;
    }
    if let (Some((c, side, limit, r0)), Some(left)) = (b, left) {
        let r1 = with(|w| w.net.conns[c].dir[1 - side].read_total);
        if left > limit as u64 {
            count("held_long_bodies");
            if r1 - r0 > limit as u64 {
                violate("unbounded-read", format!("{} bytes were read while nobody read the body (limit {limit})", r1 - r0));
            }
        }
    }
}
