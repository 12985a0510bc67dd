mod body;
mod choice;
mod clock;
mod core;
mod f_h1c;
mod f_h1s;
mod f_h2p;
mod f_kal;
mod f_bdp;
mod f_h2c;
mod f_h2s;
mod f_seg;
mod h2raw;
mod hpack;
mod f_tim;
mod f_upg;
mod gen;
mod h1ref;
mod net;
mod props;
mod runner;
mod util;

use runner::*;
use serde_json::json;
use std::io::Write;
use std::time::{Duration, Instant};

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => check(&args[1..]),
        Some("replay") => replay(&args[1]),
        Some("survey") => survey(&args[1..]),
        Some("one") => show_one(&args[1..]),
        Some("selftest") => selftest(&args[1..]),
        Some("list") => {
            for p in props::PROPS {
                println!("{} {:?}", p.id, p.parts.iter().map(|x| (x.fam.name, x.focus, x.quick, x.thorough)).collect::<Vec<_>>());
            }
            0
        }
        _ => {
            eprintln!("usage: hypersim check <PROP> | replay <file> | survey <family> <focus> <runs> | one <family> <focus> <seed> | selftest [runs]");
            2
        }
    };
    std::process::exit(code);
}

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn workers() -> usize {
    env_u64("HYPERSIM_WORKERS", std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4)) as usize
}

struct Known {
    list: Vec<(String, String, String, String)>,
}
impl Known {
    fn load() -> Known {
        let mut list = Vec::new();
        let p = root().join("known-findings.json");
        if let Ok(t) = std::fs::read_to_string(p) {
            if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) {
                for e in v["findings"].as_array().cloned().unwrap_or_default() {
                    let g = |k: &str| e[k].as_str().unwrap_or("").to_string();
                    list.push((g("property"), g("class"), g("match"), g("what")));
                }
            }
        }
        Known { list }
    }
}
fn root() -> std::path::PathBuf {
    std::env::var("HYPERSIM_ROOT").map(Into::into).unwrap_or_else(|_| {
        std::path::PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
    })
}

fn check(args: &[String]) -> i32 {
    let id = &args[0];
    let Some(p) = props::PROPS.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) || args.iter().any(|a| a == "--thorough");
    let seed = env_u64("VERIF_SEED", 1);
    println!("property={id} VERIF_SEED={seed} tier={}", if thorough { "thorough" } else { "quick" });
    let t0 = Instant::now();
    let cap = env_u64("HYPERSIM_CAP_S", if thorough { 3600 } else { 80 });
    let scale = std::env::var("HYPERSIM_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let known = Known::load();
    let kf = |v: &core::Violation| -> Option<String> {
        known
            .list
            .iter()
            .find(|k| &k.0 == id && k.1 == v.class && v.detail.contains(&k.2))
            .map(|k| k.3.clone())
    };
    let nparts = p.parts.len() as u64;
    let mut parts = Vec::new();
    let mut tot = Batch::default();
    let mut code = 0;
    let mut violations = 0;
    let mut known_runs: std::collections::BTreeMap<String, u64> = Default::default();
    for (k, part) in p.parts.iter().enumerate() {
        let runs = ((if thorough { part.thorough } else { part.quick }) as f64 * scale) as u64;
        let left = Duration::from_secs(cap).saturating_sub(t0.elapsed()) / (nparts - k as u64) as u32;
        let b = batch(&BatchCfg {
            fam: part.fam,
            focus: part.focus,
            base: seed,
            runs: runs.max(1),
            deadline: Instant::now() + left,
            workers: workers(),
            survey: false,
            known: &kf,
        });
        println!(
            "  family={} focus={} runs={} distinct={} steps={} simulated={:.1}s wall={:.1}s rechecked={}{}",
            part.fam.name, part.focus, b.runs, b.distinct.len(), b.steps, b.sim_ns as f64 / 1e9, b.wall, b.rechecked,
            if b.capped { " (time cap)" } else { "" }
        );
        if let Some((s, e)) = &b.harness_error {
            eprintln!("harness error in {} {} seed {s}: {e}", part.fam.name, part.focus);
            return 2;
        }
        if let Some(s) = b.nondet {
            eprintln!("nondeterminism in {} {} seed {s}", part.fam.name, part.focus);
            return 2;
        }
        parts.push(json!({
            "family": part.fam.name, "focus": part.focus, "runs": b.runs, "steps": b.steps,
            "distinct_interleavings": b.distinct.len(), "trivial_runs": b.trivial,
            "simulated_s": b.sim_ns as f64 / 1e9, "wall_s": b.wall,
            "seeds_per_hour": (b.runs as f64 / b.wall.max(0.001) * 3600.0) as u64,
            "events": b.stats, "runs_with_event": b.runs_with, "determinism_rechecks": b.rechecked,
            "real": part.fam.real, "stub": part.fam.stub, "time_capped": b.capped,
        }));
        for (w, n) in &b.known {
            *known_runs.entry(w.clone()).or_insert(0u64) += *n as u64;
        }
        let found = b.found.clone();
        tot.runs += b.runs;
        tot.steps += b.steps;
        tot.sim_ns += b.sim_ns;
        tot.trivial += b.trivial;
        tot.rechecked += b.rechecked;
        tot.distinct.extend(b.distinct);
        for (k, v) in b.stats {
            *tot.stats.entry(k).or_insert(0) += v;
        }
        if let Some((_, vseed, v)) = found {
            violations += 1;
            code = 1;
            report(id, part, vseed, &v);
            break;
        }
    }
    for k in known.list.iter().filter(|k| &k.0 == id) {
        println!("KNOWN-FINDING: property={id} {} ({} runs)", k.3, known_runs.get(&k.3).copied().unwrap_or(0));
    }
    let mut samples = Vec::new();
    if let Some(part) = p.parts.first() {
        for i in 0..2 {
            let s = seed_for(seed, part.fam.name, part.focus, i);
            let r = one_seeded(part.fam, part.focus, s, true);
            let mut tr = r.trace;
            let n = tr.len();
            tr.truncate(60);
            samples.push(json!({"family": part.fam.name, "focus": part.focus, "seed": s, "steps": r.steps,
                "simulated_us": r.now / 1000, "workload_choices": r.w.len(), "schedule_choices": r.s.len(),
                "trace_lines": n, "trace_head": tr}));
        }
    }
    let faults: std::collections::BTreeMap<_, _> = tot.stats.iter().filter(|(k, _)| props::is_fault(k)).map(|(k, v)| (k.to_string(), *v)).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": tot.distinct.len(),
            "rule": "one evaluation is one simulated execution, fully determined by its seed (workload, configuration, schedule, I/O and fault choices); non-trivial: at least 8 task polls; distinct: different hash over the sequence of polled tasks, transfer sizes and observed bytes",
            "samples": samples,
            "simulated_s": tot.sim_ns as f64 / 1e9,
            "scheduler_steps": tot.steps,
            "seeds_per_hour": (tot.runs as f64 / wall.max(0.001) * 3600.0) as u64,
            "faults_injected": faults,
            "determinism_rechecks_equal": tot.rechecked,
            "parts": parts,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dirp = root().join("evidence");
    let _ = std::fs::create_dir_all(&dirp);
    if let Err(e) = std::fs::write(dirp.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    if code == 0 {
        println!("OK property={id} runs={} distinct={} wall={wall:.1}s", tot.runs, tot.distinct.len());
    }
    let _ = std::io::stdout().flush();
    code
}

fn report(id: &str, part: &props::Part, seed: u64, v: &core::Violation) {
    let r = one_seeded(part.fam, part.focus, seed, false);
    let budget = Duration::from_secs(env_u64("HYPERSIM_MIN_S", 20));
    let (w, s, n) = minimise(part.fam, part.focus, &v.class, r.w.clone(), r.s.clone(), budget);
    let m = one(part.fam, part.focus, choice::Stream::replay(w.clone()), choice::Stream::replay(s.clone()), true);
    let (w, s, v2, trace, hash) = match m.violation {
        Some(x) if x.class == v.class => (w, s, x, m.trace, m.hash),
        _ => {
            let f = one(part.fam, part.focus, choice::Stream::replay(r.w.clone()), choice::Stream::replay(r.s.clone()), true);
            (r.w.clone(), r.s.clone(), v.clone(), f.trace, f.hash)
        }
    };
    let d = root().join("replays");
    let _ = std::fs::create_dir_all(&d);
    let path = d.join(format!("{id}-{}-{seed:016x}.json", part.fam.name));
    let path = path.to_string_lossy().to_string();
    let extra = json!({"runs": n, "workload_choices": [r.w.len(), w.len()], "schedule_choices": [r.s.len(), s.len()]});
    if let Err(e) = write_replay(&path, id, part.fam, part.focus, seed, &v2, &w, &s, &trace, hash, extra) {
        eprintln!("cannot write replay: {e}");
    }
    println!("  class={} seed={seed}", v2.class);
    println!("  {}", v2.detail);
    println!("  minimised: workload {} -> {} choices, schedule {} -> {} choices ({n} runs)", r.w.len(), w.len(), r.s.len(), s.len());
    // the stored file must fail the same way in a fresh process
    let again = std::env::current_exe().ok().and_then(|e| std::process::Command::new(e).arg("replay").arg(&path).output().ok());
    match again {
        Some(o) if o.status.code() == Some(1) => println!("  replayed in a fresh process: same violation"),
        _ => println!("  replay in a fresh process did not confirm"),
    }
    println!("VIOLATION property={id} replay={path}");
}

fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let j: serde_json::Value = serde_json::from_str(&t).unwrap();
    let fam = props::family(j["family"].as_str().unwrap()).expect("family");
    let focus = leak(j["focus"].as_str().unwrap());
    let l = |k: &str| -> Vec<u32> { j[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect() };
    let r = one(fam, focus, choice::Stream::replay(l("choices_workload")), choice::Stream::replay(l("choices_schedule")), true);
    for t in &r.trace {
        println!("{t}");
    }
    match r.violation {
        Some(v) => {
            let same = v.class == j["class"].as_str().unwrap_or("") && format!("{:016x}", r.hash) == j["hash"].as_str().unwrap_or("");
            println!("class={} {}", v.class, v.detail);
            println!("identical execution: {same}");
            println!("VIOLATION property={} replay={path}", j["property"].as_str().unwrap_or("?"));
            1
        }
        None => {
            println!("no violation on replay");
            0
        }
    }
}

fn survey(a: &[String]) -> i32 {
    let fam = props::family(&a[0]).expect("family");
    let focus = leak(&a[1]);
    let runs: u64 = a[2].parse().unwrap();
    let b = batch(&BatchCfg {
        fam,
        focus,
        base: env_u64("VERIF_SEED", 1),
        runs,
        deadline: Instant::now() + Duration::from_secs(3600),
        workers: workers(),
        survey: true,
        known: &|_| None,
    });
    println!(
        "runs={} distinct={} trivial={} steps={} sim={:.1}s wall={:.1}s ({:.0}/s)",
        b.runs, b.distinct.len(), b.trivial, b.steps, b.sim_ns as f64 / 1e9, b.wall, b.runs as f64 / b.wall
    );
    if let Some((s, e)) = b.harness_error {
        println!("HARNESS ERROR seed {s}: {e}");
        return 2;
    }
    if let Some(s) = b.nondet {
        println!("NONDETERMINISM seed {s}");
        return 2;
    }
    if a.get(3).is_some() {
        for (k, v) in &b.stats {
            println!("  {k}: {v} (in {} runs)", b.runs_with[k]);
        }
    }
    for (c, (n, s, d)) in &b.all {
        println!("{n:>7} {c} seed={s}\n        {}", d.chars().take(400).collect::<String>());
    }
    0
}

fn show_one(a: &[String]) -> i32 {
    let fam = props::family(&a[0]).expect("family");
    let focus = leak(&a[1]);
    let seed: u64 = a[2].parse().unwrap();
    let min = a.get(3).map_or(false, |x| x == "min");
    let mut r = one_seeded(fam, focus, seed, !min);
    if min {
        if let Some(v) = &r.violation {
            let (w, s, n) = minimise(fam, focus, &v.class, r.w.clone(), r.s.clone(), Duration::from_secs(30));
            println!("minimised {}+{} -> {}+{} in {n} runs", r.w.len(), r.s.len(), w.len(), s.len());
            println!("w={w:?}\ns={s:?}");
            r = one(fam, focus, choice::Stream::replay(w), choice::Stream::replay(s), true);
        }
    }
    for t in &r.trace {
        println!("{t}");
    }
    println!("steps={} now={}us harness={:?}", r.steps, r.now / 1000, r.harness_error);
    println!("{:?}", r.violation);
    0
}

fn selftest(a: &[String]) -> i32 {
    // determinism: every family, each seed twice, on different worker counts
    if let Err(e) = hpack::selftest() {
        eprintln!("hpack: {e}");
        return 2;
    }
    let runs: u64 = a.first().and_then(|s| s.parse().ok()).unwrap_or(2000);
    for p in props::PROPS {
        for part in p.parts {
            let mut hs = Vec::new();
            for _ in 0..2 {
                let mut h = 0u64;
                for i in 0..runs {
                    let seed = seed_for(99, part.fam.name, part.focus, i);
                    let r = one_seeded(part.fam, part.focus, seed, false);
                    h = choice::mix(h, r.hash ^ r.sched_hash.rotate_left(9) ^ r.steps);
                }
                hs.push(h);
            }
            println!("{} {} {:016x} {}", part.fam.name, part.focus, hs[0], hs[0] == hs[1]);
            if hs[0] != hs[1] {
                return 2;
            }
        }
    }
    0
}
