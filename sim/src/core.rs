//! The simulator: one thread-local world per run, a seeded single-threaded
//! executor, discrete-event time, preemption inside hyper's hook points.
use crate::choice::{mix, Stream};
use crate::clock;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BinaryHeap};
use std::cmp::Reverse;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default)]
pub struct Knobs {
    /// probability /256 per step of polling a task nobody woke
    pub spurious: u32,
    /// 0 uniform, 1 fifo, 2 lifo-biased, 3 random priorities
    pub sched: u32,
    /// maximum simulated cost of one poll
    pub poll_cost: u64,
    /// probability /256 of running another task at a hook point
    pub preempt: u32,
    /// only the waker of the latest poll may wake a task
    pub strict_wakers: bool,
    /// timers fire up to this much late
    pub timer_slack: u64,
}

type Fut = Pin<Box<dyn Future<Output = ()>>>;

struct Task {
    fut: Option<Fut>,
    name: String,
    gen: u64,
    ready: bool,
    done: bool,
    killed: bool,
    running: bool,
    polls: u64,
    prio: u32,
    group: u32,
    waker: Option<Waker>,
}

pub struct World {
    pub active: bool,
    pub now: u64,
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64)>>,
    events: BTreeMap<u64, Box<dyn FnOnce()>>,
    tasks: Vec<Task>,
    ready: Vec<usize>,
    pub w: Stream,
    pub s: Stream,
    pub knobs: Knobs,
    pub stats: BTreeMap<&'static str, u64>,
    pub violation: Option<Violation>,
    pub trace: Option<Vec<String>>,
    pub hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    steps_at_time: u64,
    pub net: crate::net::Net,
    pub bodies: Vec<crate::body::BodyStat>,
    /// (connection, side, bytes): how much of one body may be taken from its
    /// producer without having been handed to the transport
    pub pull_bound: Option<(usize, usize, usize)>,
    /// (connection, side, bytes): how much may be read ahead of a stopped reader
    pub read_bound: Option<(usize, usize, usize)>,
    /// the bodies `pull_bound` is about have names that begin with this
    pub pull_prefix: &'static str,
    pub stale_wakes: u64,
    cur_group: u32,
}

thread_local! {
    static WORLD: RefCell<Option<Box<World>>> = const { RefCell::new(None) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static CUR: Cell<usize> = const { Cell::new(usize::MAX) };
    pub static IN_SIM: Cell<bool> = const { Cell::new(false) };
    pub static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("no world")))
}
pub fn try_with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    WORLD
        .try_with(|w| w.try_borrow_mut().ok().and_then(|mut b| b.as_mut().map(|x| f(x))))
        .ok()
        .flatten()
}

pub fn install(w: Stream, s: Stream, tracing: bool) {
    // 2026-01-01T00:00:00Z plus a bit; scenarios may jump it
    clock::enable(1_767_225_600 * SEC);
    let world = World {
        active: true,
        now: 0,
        seq: 0,
        heap: BinaryHeap::new(),
        events: BTreeMap::new(),
        tasks: Vec::new(),
        ready: Vec::new(),
        w,
        s,
        knobs: Knobs { strict_wakers: true, ..Knobs::default() },
        stats: BTreeMap::new(),
        violation: None,
        trace: if tracing { Some(Vec::new()) } else { None },
        hash: 0,
        sched_hash: 0,
        steps: 0,
        steps_at_time: 0,
        net: crate::net::Net::default(),
        bodies: Vec::new(),
        pull_bound: None,
        read_bound: None,
        pull_prefix: "",
        stale_wakes: 0,
        cur_group: 0,
    };
    WORLD.with(|w| *w.borrow_mut() = Some(Box::new(world)));
}

pub fn uninstall() -> Box<World> {
    // Drop everything that may run foreign code while the world still answers.
    teardown();
    clock::disable();
    WORLD.with(|w| w.borrow_mut().take()).expect("no world")
}

/// Drops all tasks and events (in a deterministic order).
pub fn teardown() {
    with(|w| w.active = false);
    loop {
        let f = with(|w| w.tasks.iter_mut().find_map(|t| t.fut.take()));
        match f {
            Some(f) => guard_drop(f, "teardown"),
            None => break,
        }
    }
    let ev = with(|w| std::mem::take(&mut w.events));
    drop(ev);
}

fn guard_drop(f: Fut, what: &str) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f)));
    if r.is_err() {
        let m = PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default();
        violate("panic", format!("panic while dropping a task ({what}): {m}"));
    }
}

// ---- choices -------------------------------------------------------------

/// workload choice in 0..n
pub fn wd(n: u32) -> u32 {
    with(|w| w.w.draw(n))
}
pub fn wc(num: u32, den: u32) -> bool {
    with(|w| w.w.chance(num, den))
}
pub fn ww(weights: &[u32]) -> usize {
    with(|w| w.w.weighted(weights))
}
/// schedule/fault choice in 0..n
pub fn sd(n: u32) -> u32 {
    with(|w| w.s.draw(n))
}
pub fn sc(num: u32, den: u32) -> bool {
    with(|w| w.s.chance(num, den))
}
/// workload choice between lo..=hi
pub fn wr(lo: u32, hi: u32) -> u32 {
    lo + wd(hi - lo + 1)
}
pub fn pick<T: Clone>(xs: &[T]) -> T {
    xs[wd(xs.len() as u32) as usize].clone()
}

// ---- bookkeeping ---------------------------------------------------------

pub fn count(name: &'static str) {
    add(name, 1);
}
pub fn add(name: &'static str, n: u64) {
    let _ = try_with(|w| *w.stats.entry(name).or_insert(0) += n);
}
pub fn violate(class: &str, detail: String) {
    let _ = try_with(|w| {
        if w.violation.is_none() {
            if let Some(t) = &mut w.trace {
                t.push(format!("[{:>9}us] !! VIOLATION {class}: {detail}", w.now / 1000));
            }
            w.violation = Some(Violation { class: class.to_string(), detail });
        }
    });
}
pub fn violated() -> bool {
    with(|w| w.violation.is_some())
}
pub fn tr(f: impl FnOnce() -> String) {
    let _ = try_with(|w| {
        if w.trace.is_some() {
            let s = f();
            let now = w.now;
            w.trace.as_mut().unwrap().push(format!("[{:>9}us] {}", now / 1000, s));
        }
    });
}
/// Folds an observable event into the run's hash.
pub fn note(x: u64) {
    let _ = try_with(|w| w.hash = mix(w.hash, x));
}
pub fn note_bytes(b: &[u8]) {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    note(h);
}
pub fn now() -> u64 {
    with(|w| w.now)
}
pub fn shorten(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b.iter().take(160) {
        for e in std::ascii::escape_default(c) {
            s.push(e as char);
        }
    }
    if b.len() > 160 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}

// ---- time and events -----------------------------------------------------

pub fn at(t: u64, f: impl FnOnce() + 'static) -> u64 {
    with(|w| {
        w.seq += 1;
        let id = w.seq;
        let t = t.max(w.now);
        w.heap.push(Reverse((t, id)));
        w.events.insert(id, Box::new(f));
        id
    })
}
pub fn after(d: u64, f: impl FnOnce() + 'static) -> u64 {
    let t = now().saturating_add(d);
    at(t, f)
}
pub fn cancel(id: u64) {
    let e = try_with(|w| w.events.remove(&id));
    drop(e);
}
pub fn wake_after(d: u64, waker: Waker) {
    after(d, move || waker.wake());
}

fn set_time(t: u64) {
    with(|w| {
        if t > w.now {
            w.now = t;
            w.steps_at_time = 0;
        }
    });
    clock::set_now(t);
}

/// Runs events due at or before now; returns whether any ran.
fn run_due() -> bool {
    let mut any = false;
    loop {
        let ev = with(|w| loop {
            match w.heap.peek() {
                Some(Reverse((t, id))) if *t <= w.now => {
                    let id = *id;
                    w.heap.pop();
                    if let Some(e) = w.events.remove(&id) {
                        break Some(e);
                    }
                }
                _ => break None,
            }
        });
        match ev {
            Some(e) => {
                any = true;
                e();
            }
            None => return any,
        }
    }
}
fn next_event_time() -> Option<u64> {
    with(|w| loop {
        match w.heap.peek() {
            Some(Reverse((t, id))) => {
                if w.events.contains_key(id) {
                    return Some(*t);
                }
                w.heap.pop();
            }
            None => return None,
        }
    })
}

// ---- tasks ---------------------------------------------------------------

struct TaskWaker {
    task: usize,
    gen: u64,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        Self::wake_by_ref(&self)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let _ = try_with(|w| {
            let strict = w.knobs.strict_wakers;
            let t = &mut w.tasks[self.task];
            if t.done || t.ready {
                return;
            }
            if strict && t.gen != self.gen {
                w.stale_wakes += 1;
                return;
            }
            t.ready = true;
            w.ready.push(self.task);
        });
    }
}

pub fn spawn(name: impl Into<String>, f: impl Future<Output = ()> + 'static) -> usize {
    let group = with(|w| w.cur_group);
    spawn_in(group, name, f)
}
pub fn spawn_in(group: u32, name: impl Into<String>, f: impl Future<Output = ()> + 'static) -> usize {
    let f: Fut = Box::pin(f);
    let name = name.into();
    let prio_mode = with(|w| w.knobs.sched == 3);
    let prio = if prio_mode { sd(1000) } else { 0 };
    let rest = try_with(|w| {
        if !w.active {
            return Some(f);
        }
        let id = w.tasks.len();
        w.tasks.push(Task {
            fut: Some(f),
            name,
            gen: 0,
            waker: None,
            ready: true,
            done: false,
            killed: false,
            running: false,
            polls: 0,
            prio,
            group,
        });
        w.ready.push(id);
        None
    });
    match rest {
        Some(None) => with(|w| w.tasks.len() - 1),
        _ => usize::MAX,
    }
}
pub fn task_done(id: usize) -> bool {
    with(|w| w.tasks[id].done)
}
pub fn task_polls(id: usize) -> u64 {
    with(|w| w.tasks[id].polls)
}
/// Tasks that are still alive, by group.
pub fn live_tasks(group: u32) -> Vec<String> {
    with(|w| w.tasks.iter().filter(|t| !t.done && t.group == group).map(|t| t.name.clone()).collect())
}
pub fn in_group<R>(group: u32, f: impl FnOnce() -> R) -> R {
    let old = with(|w| std::mem::replace(&mut w.cur_group, group));
    let r = f();
    with(|w| w.cur_group = old);
    r
}
/// Drops a task at a step boundary, as if its owner had dropped it.
pub fn kill(id: usize) {
    let f = with(|w| {
        let t = &mut w.tasks[id];
        if t.done {
            return None;
        }
        if t.running {
            // cannot drop a future that is being polled; done after its poll
            t.killed = true;
            return None;
        }
        t.done = true;
        t.killed = true;
        t.fut.take()
    });
    if let Some(f) = f {
        tr(|| format!("kill task {id}"));
        note(0x4b11 ^ id as u64);
        guard_drop(f, "kill");
    }
}

/// Drops every task of a group.
pub fn kill_group(g: u32) {
    let ids: Vec<usize> = with(|w| (0..w.tasks.len()).filter(|&i| !w.tasks[i].done && w.tasks[i].group == g).collect());
    for i in ids {
        kill(i);
    }
}

fn poll_task(id: usize) {
    let (fut, gen) = match with(|w| {
        let t = &mut w.tasks[id];
        if t.done || t.running {
            return None;
        }
        t.gen += 1;
        t.running = true;
        t.polls += 1;
        let gen = t.gen;
        let g = t.group;
        let f = t.fut.take()?;
        w.cur_group = g;
        w.steps += 1;
        w.steps_at_time += 1;
        w.sched_hash = mix(w.sched_hash, id as u64 + 1);
        w.hash = mix(w.hash, id as u64 + 1);
        Some((f, gen))
    }) {
        Some(x) => x,
        None => return,
    };
    let mut fut = fut;
    // strict: only the waker of the latest poll counts; otherwise one waker per task
    let kept = with(|w| if w.knobs.strict_wakers { None } else { w.tasks[id].waker.clone() });
    let waker = kept.unwrap_or_else(|| Waker::from(Arc::new(TaskWaker { task: id, gen })));
    with(|w| {
        if !w.knobs.strict_wakers {
            w.tasks[id].waker = Some(waker.clone());
        }
    });
    let prev = CUR.with(|c| c.replace(id));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut cx = Context::from_waker(&waker);
        fut.as_mut().poll(&mut cx)
    }));
    CUR.with(|c| c.set(prev));
    match res {
        Ok(Poll::Pending) => {
            let killed = with(|w| {
                let t = &mut w.tasks[id];
                t.running = false;
                if t.killed {
                    t.done = true;
                    true
                } else {
                    t.fut = Some(std::mem::replace(&mut fut, Box::pin(async {})));
                    false
                }
            });
            if killed {
                guard_drop(fut, "kill");
            }
        }
        Ok(Poll::Ready(())) => {
            with(|w| {
                let t = &mut w.tasks[id];
                t.running = false;
                t.done = true;
            });
            guard_drop(fut, "end");
        }
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default();
            let name = with(|w| {
                let t = &mut w.tasks[id];
                t.running = false;
                t.done = true;
                t.name.clone()
            });
            violate("panic", format!("task {name} panicked: {m}"));
            guard_drop(fut, "after panic");
        }
    }
}

/// Called from hyper at its hook points: maybe run another task right here.
#[no_mangle]
fn __hyper_sim_point(name: &'static str) {
    let go = try_with(|w| {
        if !w.active || w.knobs.preempt == 0 || w.violation.is_some() || w.ready.is_empty() {
            return None;
        }
        Some(w.knobs.preempt)
    })
    .flatten();
    let Some(p) = go else { return };
    if DEPTH.with(|d| d.get()) >= 3 || CUR.with(|c| c.get()) == usize::MAX {
        return;
    }
    let cands = with(|w| {
        w.ready.iter().copied().filter(|&i| !w.tasks[i].running && !w.tasks[i].done).collect::<Vec<_>>()
    });
    if cands.is_empty() || !sc(p, 256) {
        return;
    }
    let id = cands[sd(cands.len() as u32) as usize];
    with(|w| {
        w.ready.retain(|&x| x != id);
        w.tasks[id].ready = false;
    });
    count("preempt_runs");
    tr(|| format!("preempt at {name}: poll task {id} ({})", with_name(id)));
    DEPTH.with(|d| d.set(d.get() + 1));
    let g = with(|w| w.cur_group);
    poll_task(id);
    with(|w| w.cur_group = g);
    DEPTH.with(|d| d.set(d.get() - 1));
}
fn with_name(_id: usize) -> String {
    // called inside tr(), where the world is borrowed
    String::new()
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum End {
    Quiescent,
    Horizon,
    Steps,
    Violation,
    Done,
}

pub struct Limits {
    pub max_steps: u64,
    pub horizon: u64,
}

/// Runs until nothing can happen any more, `stop` says so, or a limit is hit.
pub fn run(l: Limits, mut stop: impl FnMut() -> bool) -> End {
    let (base_steps, horizon) = with(|w| (w.steps, w.now.saturating_add(l.horizon)));
    loop {
        if violated() {
            return End::Violation;
        }
        if stop() {
            return End::Done;
        }
        if with(|w| w.steps - base_steps) > l.max_steps {
            return End::Steps;
        }
        run_due();
        let n = with(|w| w.ready.len());
        if n == 0 {
            match next_event_time() {
                Some(t) if t <= horizon => {
                    set_time(t);
                    continue;
                }
                Some(_) => {
                    set_time(horizon);
                    return End::Horizon;
                }
                None => return End::Quiescent,
            }
        }
        let id = with(|w| {
            let k = w.knobs.clone();
            if k.spurious > 0 && w.s.chance(k.spurious, 256) {
                let live: Vec<usize> =
                    (0..w.tasks.len()).filter(|&i| !w.tasks[i].done && !w.tasks[i].ready).collect();
                if !live.is_empty() {
                    let id = live[w.s.draw(live.len() as u32) as usize];
                    *w.stats.entry("spurious_polls").or_insert(0) += 1;
                    return id;
                }
            }
            let n = w.ready.len() as u32;
            let i = match k.sched {
                1 => 0,
                2 => {
                    if w.s.chance(3, 4) {
                        n as usize - 1
                    } else {
                        w.s.draw(n) as usize
                    }
                }
                3 => {
                    if w.s.chance(1, 12) {
                        w.s.draw(n) as usize
                    } else {
                        let mut b = 0;
                        for j in 1..w.ready.len() {
                            if w.tasks[w.ready[j]].prio > w.tasks[w.ready[b]].prio {
                                b = j;
                            }
                        }
                        b
                    }
                }
                _ => w.s.draw(n) as usize,
            };
            let id = w.ready.remove(i);
            w.tasks[id].ready = false;
            id
        });
        if with(|w| w.trace.is_some()) {
            let name = with(|w| w.tasks[id].name.clone());
            tr(|| format!("poll {name}"));
        }
        poll_task(id);
        let cost = with(|w| {
            let c = w.knobs.poll_cost;
            if c > 0 {
                w.s.draw(c.min(u32::MAX as u64 - 1) as u32 + 1) as u64
            } else {
                0
            }
        });
        if cost > 0 {
            let t = now() + cost;
            set_time(t);
        }
    }
}

// ---- sleeps --------------------------------------------------------------

pub struct SimSleep {
    deadline: u64,
    ev: Option<u64>,
    waker: Arc<std::sync::Mutex<Option<Waker>>>,
    fired: Arc<std::sync::atomic::AtomicBool>,
}
pub fn sleep_until_ns(t: u64) -> SimSleep {
    SimSleep {
        deadline: t,
        ev: None,
        waker: Arc::default(),
        fired: Arc::default(),
    }
}
pub fn sleep(d: u64) -> SimSleep {
    sleep_until_ns(now().saturating_add(d))
}
impl Future for SimSleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        use std::sync::atomic::Ordering::SeqCst;
        if self.fired.load(SeqCst) {
            return Poll::Ready(());
        }
        if now() >= self.deadline && self.ev.is_none() {
            return Poll::Ready(());
        }
        *self.waker.lock().unwrap() = Some(cx.waker().clone());
        if self.ev.is_none() {
            let slack = with(|w| {
                let s = w.knobs.timer_slack;
                if s > 0 {
                    w.s.draw(s.min(1 << 31) as u32 + 1) as u64
                } else {
                    0
                }
            });
            let (wk, fd) = (self.waker.clone(), self.fired.clone());
            let t = self.deadline.saturating_add(slack);
            self.ev = Some(at(t, move || {
                fd.store(true, SeqCst);
                let w = wk.lock().unwrap().take();
                if let Some(w) = w {
                    w.wake();
                }
            }));
        }
        Poll::Pending
    }
}
impl Drop for SimSleep {
    fn drop(&mut self) {
        if let Some(e) = self.ev.take() {
            cancel(e);
        }
    }
}
impl hyper::rt::Sleep for SimSleep {}

pub fn instant_to_ns(i: Instant) -> u64 {
    let now_i = Instant::now();
    let n = now();
    if i >= now_i {
        n.saturating_add(i.duration_since(now_i).as_nanos() as u64)
    } else {
        n.saturating_sub(now_i.duration_since(i).as_nanos() as u64)
    }
}

#[derive(Clone, Debug)]
pub struct SimTimer;
impl hyper::rt::Timer for SimTimer {
    fn sleep(&self, d: Duration) -> Pin<Box<dyn hyper::rt::Sleep>> {
        count("timer_sleep");
        Box::pin(sleep(d.as_nanos() as u64))
    }
    fn sleep_until(&self, deadline: Instant) -> Pin<Box<dyn hyper::rt::Sleep>> {
        count("timer_sleep");
        Box::pin(sleep_until_ns(instant_to_ns(deadline)))
    }
    fn reset(&self, sleep: &mut Pin<Box<dyn hyper::rt::Sleep>>, new_deadline: Instant) {
        count("timer_reset");
        *sleep = self.sleep_until(new_deadline);
    }
}

/// Executor handed to hyper: spawns into the current task's group.
#[derive(Clone, Debug)]
pub struct SimExec(pub u32, pub &'static str);
impl<F> hyper::rt::Executor<F> for SimExec
where
    F: Future<Output = ()> + 'static,
{
    fn execute(&self, fut: F) {
        count("executor_spawns");
        spawn_in(self.0, self.1, fut);
    }
}

pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        if done {
            Poll::Ready(())
        } else {
            done = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}
/// Never completes.
pub async fn forever() {
    std::future::pending::<()>().await
}

/// A gate any number of tasks can wait for.
#[derive(Clone, Default)]
pub struct Gate(std::rc::Rc<RefCell<(bool, Vec<Waker>)>>);
impl Gate {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn open(&self) {
        let ws = {
            let mut b = self.0.borrow_mut();
            b.0 = true;
            std::mem::take(&mut b.1)
        };
        for w in ws {
            w.wake();
        }
    }
    pub fn is_open(&self) -> bool {
        self.0.borrow().0
    }
    pub async fn wait(&self) {
        std::future::poll_fn(|cx| {
            let mut b = self.0.borrow_mut();
            if b.0 {
                Poll::Ready(())
            } else {
                b.1.push(cx.waker().clone());
                Poll::Pending
            }
        })
        .await
    }
}

/// Standard swarm draw: which schedule perturbations this run uses.
pub fn draw_knobs() -> Knobs {
    let k = Knobs {
        spurious: pick(&[0, 0, 0, 4, 24]),
        sched: pick(&[0, 0, 1, 2, 3]),
        poll_cost: pick(&[0, 0, 0, 2_000, 300_000]),
        preempt: pick(&[0, 0, 16, 64, 128]),
        strict_wakers: !wc(1, 8),
        timer_slack: pick(&[0, 0, 1_000_000]),
    };
    with(|w| w.knobs = k.clone());
    k
}
