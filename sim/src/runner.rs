//! Runs seeds in parallel, collects coverage, minimises and stores violations.
use crate::choice::{mix, Stream};
use crate::core::{self, Violation};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy)]
pub struct Family {
    pub name: &'static str,
    pub f: fn(&'static str),
    pub real: &'static str,
    pub stub: &'static str,
}

pub struct RunOut {
    pub violation: Option<Violation>,
    pub w: Vec<u32>,
    pub s: Vec<u32>,
    pub stats: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub sched_hash: u64,
    pub steps: u64,
    pub now: u64,
    pub trace: Vec<String>,
    pub harness_error: Option<String>,
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let active = core::try_with(|_| ()).is_some() || core::IN_SIM.with(|c| c.get());
        if active {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            core::PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
        } else {
            old(info);
        }
    }));
}

pub fn one(fam: Family, focus: &'static str, w: Stream, s: Stream, tracing: bool) -> RunOut {
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            core::IN_SIM.with(|c| c.set(true));
            core::install(w, s, tracing);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (fam.f)(focus)));
            let mut harness_error = None;
            if r.is_err() {
                let m = core::PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default();
                if m.contains("/repo/src") || m.contains("/h2-") {
                    core::violate("panic", m);
                } else {
                    harness_error = Some(m);
                }
            }
            let world = core::uninstall();
            let mut world = *world;
            core::IN_SIM.with(|c| c.set(false));
            RunOut {
                violation: world.violation.take(),
                w: std::mem::take(&mut world.w.log),
                s: std::mem::take(&mut world.s.log),
                stats: std::mem::take(&mut world.stats),
                hash: world.hash,
                sched_hash: world.sched_hash,
                steps: world.steps,
                now: world.now,
                trace: world.trace.take().unwrap_or_default(),
                harness_error,
            }
        })
        .expect("spawn");
    h.join().unwrap_or_else(|_| RunOut {
        violation: None,
        w: vec![],
        s: vec![],
        stats: BTreeMap::new(),
        hash: 0,
        sched_hash: 0,
        steps: 0,
        now: 0,
        trace: vec![],
        harness_error: Some("simulation thread died".into()),
    })
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}
pub fn seed_for(base: u64, fam: &str, focus: &str, i: u64) -> u64 {
    mix(mix(mix(base, hash_str(fam)), hash_str(focus)), i)
}
pub fn one_seeded(fam: Family, focus: &'static str, seed: u64, tracing: bool) -> RunOut {
    one(fam, focus, Stream::random(mix(seed, 1)), Stream::random(mix(seed, 2)), tracing)
}

#[derive(Default)]
pub struct Batch {
    pub runs: u64,
    pub steps: u64,
    pub sim_ns: u128,
    pub stats: BTreeMap<&'static str, u64>,
    pub runs_with: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub trivial: u64,
    pub found: Option<(u64, u64, Violation)>,
    pub known: BTreeMap<String, u64>,
    pub all: BTreeMap<String, (u64, u64, String)>,
    pub harness_error: Option<(u64, String)>,
    pub rechecked: u64,
    pub nondet: Option<u64>,
    pub wall: f64,
    pub capped: bool,
}

pub struct BatchCfg<'a> {
    pub fam: Family,
    pub focus: &'static str,
    pub base: u64,
    pub runs: u64,
    pub deadline: Instant,
    pub workers: usize,
    /// collect every class instead of stopping at the first
    pub survey: bool,
    pub known: &'a (dyn Fn(&Violation) -> Option<String> + Sync),
}

pub fn batch(c: &BatchCfg) -> Batch {
    let t0 = Instant::now();
    let next = AtomicU64::new(0);
    let min_bad = AtomicU64::new(u64::MAX);
    let stop = AtomicBool::new(false);
    let acc = Mutex::new(Batch::default());
    std::thread::scope(|sc| {
        for _ in 0..c.workers {
            sc.spawn(|| {
                let mut b = Batch::default();
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= c.runs || i > min_bad.load(Ordering::SeqCst) || stop.load(Ordering::SeqCst) {
                        break;
                    }
                    if Instant::now() > c.deadline {
                        b.capped = true;
                        break;
                    }
                    let seed = seed_for(c.base, c.fam.name, c.focus, i);
                    let r = one_seeded(c.fam, c.focus, seed, false);
                    b.runs += 1;
                    b.steps += r.steps;
                    b.sim_ns += r.now as u128;
                    for (k, v) in &r.stats {
                        *b.stats.entry(k).or_insert(0) += v;
                        *b.runs_with.entry(k).or_insert(0) += 1;
                    }
                    if r.steps >= 8 {
                        b.distinct.insert(r.sched_hash ^ r.hash.rotate_left(17));
                    } else {
                        b.trivial += 1;
                    }
                    if let Some(e) = r.harness_error {
                        if b.harness_error.is_none() {
                            b.harness_error = Some((seed, e));
                        }
                        stop.store(true, Ordering::SeqCst);
                        break;
                    }
                    if i % 67 == 0 {
                        b.rechecked += 1;
                        let r2 = one_seeded(c.fam, c.focus, seed, i % 134 == 0);
                        if r2.hash != r.hash || r2.w != r.w || r2.s != r.s || r2.steps != r.steps {
                            b.nondet = Some(seed);
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                    }
                    if let Some(v) = r.violation {
                        if let Some(k) = (c.known)(&v) {
                            *b.known.entry(k).or_insert(0) += 1;
                            continue;
                        }
                        if c.survey {
                            let e = b.all.entry(v.class.clone()).or_insert((0, seed, v.detail.clone()));
                            e.0 += 1;
                            continue;
                        }
                        min_bad.fetch_min(i, Ordering::SeqCst);
                        if b.found.as_ref().map_or(true, |f| i < f.0) {
                            b.found = Some((i, seed, v));
                        }
                    }
                }
                let mut a = acc.lock().unwrap();
                a.runs += b.runs;
                a.steps += b.steps;
                a.sim_ns += b.sim_ns;
                a.trivial += b.trivial;
                a.rechecked += b.rechecked;
                a.capped |= b.capped;
                for (k, v) in b.stats {
                    *a.stats.entry(k).or_insert(0) += v;
                }
                for (k, v) in b.runs_with {
                    *a.runs_with.entry(k).or_insert(0) += v;
                }
                a.distinct.extend(b.distinct);
                for (k, v) in b.known {
                    *a.known.entry(k).or_insert(0) += v;
                }
                for (k, v) in b.all {
                    let e = a.all.entry(k).or_insert((0, v.1, v.2.clone()));
                    e.0 += v.0;
                    if v.2.len() < e.2.len() {
                        e.1 = v.1;
                        e.2 = v.2;
                    }
                }
                if let Some(f) = b.found {
                    if a.found.as_ref().map_or(true, |x| f.0 < x.0) {
                        a.found = Some(f);
                    }
                }
                if a.harness_error.is_none() {
                    a.harness_error = b.harness_error;
                }
                if a.nondet.is_none() {
                    a.nondet = b.nondet;
                }
            });
        }
    });
    let mut a = acc.into_inner().unwrap();
    a.wall = t0.elapsed().as_secs_f64();
    a
}

fn strip(mut v: Vec<u32>) -> Vec<u32> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

/// Shrinks both choice lists while the same class of violation persists.
pub fn minimise(fam: Family, focus: &'static str, class: &str, w: Vec<u32>, s: Vec<u32>, budget: Duration) -> (Vec<u32>, Vec<u32>, u64) {
    let t0 = Instant::now();
    let runs = std::cell::Cell::new(0u64);
    let test = |w: &Vec<u32>, s: &Vec<u32>| -> Option<(Vec<u32>, Vec<u32>)> {
        if t0.elapsed() > budget {
            return None;
        }
        runs.set(runs.get() + 1);
        let r = one(fam, focus, Stream::replay(w.clone()), Stream::replay(s.clone()), false);
        match r.violation {
            Some(v) if v.class == class && r.harness_error.is_none() => Some((strip(r.w), strip(r.s))),
            _ => None,
        }
    };
    let mut cur = (strip(w), strip(s));
    if let Some(x) = test(&cur.0, &cur.1) {
        cur = x;
    } else {
        return (cur.0, cur.1, runs.get());
    }
    let cost = |c: &(Vec<u32>, Vec<u32>)| -> (usize, u64) {
        (c.0.len() + c.1.len(), c.0.iter().chain(c.1.iter()).map(|x| *x as u64).sum())
    };
    loop {
        let before = cost(&cur);
        for which in [1usize, 0] {
            // truncate
            let mut n = 0;
            loop {
                let len = if which == 0 { cur.0.len() } else { cur.1.len() };
                let keep = n;
                if keep >= len {
                    break;
                }
                let mut c = cur.clone();
                if which == 0 {
                    c.0.truncate(keep)
                } else {
                    c.1.truncate(keep)
                }
                if let Some(x) = test(&c.0, &c.1) {
                    if cost(&x) < cost(&cur) {
                        cur = x;
                    }
                    break;
                }
                n = if n == 0 { 1 } else { n * 2 };
            }
            // zero and delete chunks
            let mut size = (if which == 0 { cur.0.len() } else { cur.1.len() }).div_ceil(2).max(1);
            loop {
                let mut i = 0;
                loop {
                    let len = if which == 0 { cur.0.len() } else { cur.1.len() };
                    if i >= len {
                        break;
                    }
                    let e = (i + size).min(len);
                    let mut hit = false;
                    for del in [true, false] {
                        let mut c = cur.clone();
                        let l = if which == 0 { &mut c.0 } else { &mut c.1 };
                        if del {
                            l.drain(i..e);
                        } else {
                            if l[i..e].iter().all(|x| *x == 0) {
                                continue;
                            }
                            l[i..e].iter_mut().for_each(|x| *x = 0);
                        }
                        if let Some(x) = test(&c.0, &c.1) {
                            if cost(&x) < cost(&cur) {
                                cur = x;
                                hit = true;
                                break;
                            }
                        }
                    }
                    if !hit {
                        i = e;
                    }
                    if t0.elapsed() > budget {
                        break;
                    }
                }
                if size == 1 || t0.elapsed() > budget {
                    break;
                }
                size /= 2;
            }
            // lower single values
            let mut i = 0;
            while i < (if which == 0 { cur.0.len() } else { cur.1.len() }) {
                let v = if which == 0 { cur.0[i] } else { cur.1[i] };
                let mut cand = vec![];
                if v > 1 {
                    cand.push(1);
                    cand.push(v / 2);
                    cand.push(v - 1);
                }
                for x in cand {
                    let mut c = cur.clone();
                    if which == 0 {
                        c.0[i] = x
                    } else {
                        c.1[i] = x
                    }
                    if let Some(y) = test(&c.0, &c.1) {
                        if cost(&y) < cost(&cur) {
                            cur = y;
                            break;
                        }
                    }
                }
                i += 1;
            }
        }
        if cost(&cur) >= before || t0.elapsed() > budget {
            break;
        }
    }
    (cur.0, cur.1, runs.get())
}

pub fn write_replay(path: &str, property: &str, fam: Family, focus: &str, seed: u64, v: &Violation, w: &[u32], s: &[u32], trace: &[String], hash: u64, extra: Value) -> std::io::Result<()> {
    let j = json!({
        "property": property,
        "family": fam.name,
        "focus": focus,
        "seed": seed,
        "class": v.class,
        "detail": v.detail,
        "hash": format!("{hash:016x}"),
        "choices_workload": w,
        "choices_schedule": s,
        "minimisation": extra,
        "trace": trace,
    });
    std::fs::write(path, serde_json::to_string_pretty(&j).unwrap())
}

pub fn leak<T: AsRef<str>>(s: T) -> &'static str {
    Box::leak(s.as_ref().to_string().into_boxed_str())
}

pub type Shared<T> = Arc<Mutex<T>>;
pub fn set_of(v: &[&str]) -> BTreeSet<String> {
    v.iter().map(|s| s.to_string()).collect()
}
