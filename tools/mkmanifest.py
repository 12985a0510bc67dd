#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the property table of the simulator.
import json, os, re, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(f"{root}/sim/src/props.rs").read()
src = src[src.index("pub const PROPS"):]
claimed = {m.group(1): re.findall(r"part\((\w+),", m.group(2)) for m in re.finditer(r'prop\("(C\d\d)", &\[(.*?)\]\),', src, re.S)}
fams = {"H1S": "HTTP/1 server under scripted raw clients", "H1C": "HTTP/1 client under a scripted raw server",
        "H1P": "hyper HTTP/1 client against hyper HTTP/1 server", "H2P": "hyper HTTP/2 client against hyper HTTP/2 server",
        "H2S": "HTTP/2 server under a scripted peer", "H2C": "HTTP/2 client under a scripted peer",
        "ADV": "adversarial byte streams, both roles and versions", "SEG": "one byte stream under many segmentations",
        "TMO": "HTTP/1 header read timeout", "KAL": "HTTP/2 keep-alive", "UPG": "upgrades and tunnels",
        "BDP": "adaptive HTTP/2 windows under long transfers", "DATE": "Date header under a simulated clock", "LIM": "protocol limits", "BP": "backpressure", "FFI": "C API",
        "GRC": "graceful shutdown", "DSP": "client handles and dispatch"}
na_default = "not claimed yet: no scenario family of the simulator drives it so far"
na = {"C24": "a pure validation of one byte string: no concurrency, time, I/O, randomness or second party takes part, so there is no schedule or fault for a simulator to decide; another technique would have to decide it"}
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hook_commits = [l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("sim:")]
checks, notapp = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        f = list(dict.fromkeys(claimed[i]))
        checks.append({
            "property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, I/O splits and faults",
            "level": "exploration",
            "level_note": "Sampled, not exhaustive. Scenarios: " + "; ".join(fams.get(x, x) for x in f) + ". Real code: hyper (and h2, httparse, http where used) compiled from /repo with the preemption hooks on; transport, executor, timer, clock and peers are simulated. Trusts the independent reference reader and oracles in /verif/sim, and explores task interleavings at poll boundaries and at the hook points only.",
        })
    else:
        notapp.append({"property": i, "reason": na.get(i, na_default)})
m = {"version": 1, "setup_cmd": "./check.sh build",
     "hooks": {"guard": "rustc cfg hyper_sim (off by default)", "enable": "RUSTFLAGS=\"--cfg hyper_sim\" in check.sh", "source_commits": hook_commits},
     "checks": checks, "not_applicable": notapp,
     "notes": "Every check builds /verif/sim against /repo's working tree and runs its scenario families; a violation is minimised and stored under /verif/replays, and 'sim/target/debug/hypersim replay FILE' reproduces it exactly. known-findings.json lists repaired defects and, if any, findings left open."}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in notapp])
