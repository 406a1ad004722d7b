#!/usr/bin/env python3
"""Decide one property of clingcon by deterministic simulation.

usage: check.py ID [--tier quick|thorough] [--time SECONDS]
       check.py --replay FILE [--plain|--race]
       check.py --setup

Builds clingcon from /repo (or $REPO) together with the simulator, runs many
seeded simulations of the profile of the property, writes evidence/ID.json,
and exits with 0 (held on everything explored), 1 (VIOLATION) or 2 (error).
"""
import hashlib
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(HERE, ".build")

# property -> (profile, share of the time, flavour of the build)
PROFILES = {f"C{i:02}": [(f"c{i:02}", 1.0, "plain")] for i in range(1, 21)}
PROFILES["C10"] = [("c10", 1.0, "race")]
PROFILES["C16"] = [("c16", 0.6, "plain"), ("c16", 0.4, "race")]
QUICK_S, THOROUGH_S = 50, 1200

RULE = (
    "one case = one program (several steps, rules, constraints, options, threads), one schedule and one fault plan, all "
    "derived from one seed; non-trivial: a completed run that judged at least one solve call (or an expected error) while "
    "at least two threads interleaved or at least one fault was injected; distinct: by the hash of the log of all thread "
    "switches, API calls, callbacks, models and results"
)

ASSUMPTIONS = [
    "the reference model in sim/model.cc states the semantics of the constraints; it enumerates all solutions of small programs and plants solutions in large ones",
    "clingo/clasp 5.7.1 is real code and trusted; its known defects are kept out of the workload (see DESIGN.md)",
    "threads are interleaved sequentially consistently, preempted at synchronisation points, API calls, allocations and basic blocks of clingcon",
    "seeded search samples schedules and faults; a clean run is evidence, not a proof",
]


def known_findings():
    res = []
    with open(os.path.join(HERE, "known_findings.txt"), encoding="utf8") as f:
        for line in f:
            if m := re.match(r"known: property=(\S+) (\S+) (.*)$", line):
                res.append(m.groups())
    return res


def build(flavours):
    """Build the simulator in the given flavours (in parallel)."""
    procs = []
    for flavour in flavours:
        out = os.path.join(BUILD, flavour)
        os.makedirs(out, exist_ok=True)
        log = os.path.join(out, "build.log")
        cmd = [os.path.join(HERE, "sim", "build.sh"), out] + (["race"] if flavour == "race" else [])
        with open(log, "w", encoding="utf8") as f:
            procs.append((subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env={**os.environ, "REPO": REPO}), log))
    failed = False
    for proc, log in procs:
        if proc.wait() != 0:
            failed = True
            with open(log, encoding="utf8") as f:
                sys.stderr.write(f.read()[-4000:])
    if failed:
        print("ERROR: the simulator cannot be built")
        sys.exit(2)
    return {flavour: os.path.join(BUILD, flavour, "sim") for flavour in flavours}


def run_sim(sim, profile, first, seconds, replay, out, known, extra):
    if os.path.exists(out):
        os.unlink(out)
    cmd = [sim, "run", f"--profile={profile}", f"--first={first}", f"--time={seconds}", f"--out={out}",
           f"--replay={replay}", f"--known={','.join(known)}"] + extra
    ret = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False)
    stats = None
    if os.path.exists(out):
        with open(out, encoding="utf8") as f:
            stats = json.load(f)
    text = ret.stdout.decode("utf8", "replace")
    err = ret.stderr.decode("utf8", "replace")
    return ret.returncode, stats, text, err


def resolve(sim, text):
    """Replace the code addresses in descriptions of races."""
    def line(m):
        ret = subprocess.run(["addr2line", "-Cfe", sim, m.group(1)], stdout=subprocess.PIPE, check=False)
        res = ret.stdout.decode("utf8", "replace").split("\n")
        return f"{res[0]} ({os.path.basename(res[1])})" if len(res) > 1 else m.group(0)
    return re.sub(r"@([0-9a-f]+)@", line, text)


def merge(total, stats):
    for k, v in stats.items():
        if isinstance(v, bool) or v is None or isinstance(v, str):
            total[k] = v
        elif isinstance(v, (int, float)):
            total[k] = max(total.get(k, 0), v) if k.startswith("max_") or k in ("workers", "covered_blocks") else total.get(k, 0) + v
        elif isinstance(v, list):
            old = total.get(k, [0] * len(v))
            total[k] = [a + b for a, b in zip(old, v)]
        elif isinstance(v, dict):
            old = total.setdefault(k, {})
            for kk, vv in v.items():
                if isinstance(vv, list):
                    old[kk] = [a + b for a, b in zip(old.get(kk, [0] * len(vv)), vv)]
                else:
                    old[kk] = old.get(kk, 0) + vv


def samples(sim, profile, first):
    res = []
    for seed in (first, first + 1, first + 2):
        ret = subprocess.run([sim, "gen", f"--profile={profile}", f"--seed={seed}"], stdout=subprocess.PIPE, check=False)
        res.append({"profile": profile, "seed": seed, "case": ret.stdout.decode("utf8", "replace")[:3000]})
    return res


def evidence(pid, tier, seed, total, smp, wall, violations, notes):
    hours = max(total.get("seconds", 0.001), 0.001) / 3600
    faults = {k: {"injected": v[0], "runs": v[1]} for k, v in total.get("faults", {}).items()}
    cov = {
        "evaluations": int(total.get("runs", 0)),
        "distinct_nontrivial": int(total.get("distinct_nontrivial", 0)),
        "rule": RULE,
        "samples": smp,
        "runs_per_hour": int(total.get("runs", 0) / hours),
        "seeds_per_hour": int(total.get("runs", 0) / hours),
        "simulated_seconds": total.get("simulated_seconds", 0),
        "scheduler_steps": int(total.get("ticks", 0)),
        "thread_switches": int(total.get("switches", 0)),
        "yield_points": int(total.get("yield_points", 0)),
        "distinct_schedules": int(total.get("distinct_schedules", 0)),
        "faults": faults,
        "callbacks_checked": total.get("callbacks", {}),
        "runs_by_number_of_threads": total.get("threads_hist", []),
        "inconclusive_runs": int(total.get("inconclusive", 0)),
        "solve_calls": int(total.get("solves", 0)),
        "exhausted_calls": int(total.get("exhausted", 0)),
        "interrupted_calls": int(total.get("interrupted", 0)),
        "models_checked": int(total.get("models_checked", 0)),
        "solution_sets_compared": int(total.get("solution_sets_compared", 0)),
        "optima_checked": int(total.get("optima_checked", 0)),
        "expected_errors": int(total.get("expected_errors", 0)),
        "accesses_race_checked": int(total.get("accesses_race_checked", 0)),
        "max_steps_after_stop": int(total.get("max_stop_steps", 0)),
        "basic_blocks_covered": int(total.get("covered_blocks", 0)),
        "determinism_checks": int(total.get("determinism_checks", 0)),
        "determinism_failures": int(total.get("determinism_failures", 0)),
        "known_finding_occurrences": total.get("known_findings", {}),
        "real_code": ["clingcon (all of libclingcon, compiled from /repo)", "app/main.cc (profile c18)", "clingo 5.7.1 with gringo and clasp (shared library)", "libstdc++"],
        "stubs": ["pthread (threads run one at a time as decided by the seed)", "clocks, timers and signals (simulated)", "malloc (deterministic arenas, injected failures)", "host application (generated driver)"],
    }
    if notes:
        cov["notes"] = notes
    data = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": ASSUMPTIONS, "wall_s": round(wall, 2), "violations": violations}
    path = os.path.join(HERE, "evidence", f"{pid}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    text = json.dumps(data, indent=1)
    if len(text) > 60000:
        for s in smp:
            s["case"] = s["case"][:500]
        text = json.dumps(data, indent=1)
    with open(path + ".tmp", "w", encoding="utf8") as f:
        f.write(text)
    os.replace(path + ".tmp", path)


def main(argv):
    if argv[:1] == ["--setup"]:
        build(["plain", "race"])
        print("simulator built")
        return 0
    known = known_findings()
    names = sorted({k[1] for k in known})
    if argv[:1] == ["--replay"]:
        with open(argv[1], encoding="utf8") as f:
            flavour = "race" if re.search(r"^expect race$", f.read(), re.M) else "plain"
        if argv[2:] in (["--race"], ["--plain"]):
            flavour = argv[2][2:]
        sim = build([flavour])[flavour]
        return subprocess.run([sim, "replay", argv[1], f"--known={','.join(names)}"], check=False).returncode
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seconds = None
    args = argv[1:]
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--time":
            seconds = float(args.pop(0))
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    start = time.time()
    sims = build(sorted({f for _, _, f in PROFILES[pid]}))
    if seconds is None:
        seconds = QUICK_S if tier == "quick" else THOROUGH_S
    print(f"property {pid} tier {tier} VERIF_SEED {seed}", flush=True)
    total, smp, notes = {}, [], []
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    status = 0
    for profile, share, flavour in PROFILES[pid]:
        sim = sims[flavour]
        first = int.from_bytes(hashlib.sha256(f"{profile}/{seed}".encode()).digest()[:5], "big") + 1
        replay = os.path.join(rdir, f"{pid}-{profile}-{flavour}-{seed}.replay")
        rc, stats, text, err = run_sim(sim, profile, first, seconds * share, replay, os.path.join(BUILD, f"{pid}-{profile}-{flavour}.json"),
                                       names, ["--mintime=60"] + ["--cpu=10" if flavour == "race" else "--cpu=15"])
        sys.stdout.write(resolve(sim, text))
        sys.stderr.write(err[-4000:])
        if stats is not None:
            merge(total, stats)
        smp += samples(sim, profile, first)
        if rc == 1:
            print(f"VIOLATION property={pid} replay={replay}", flush=True)
            status = 1
            break
        if rc != 0 or stats is None:
            notes.append(f"{profile}: simulator failed with {rc}: {err[-500:]}")
            status = 2
            break
    if status != 1:
        for prop, name, what in known:
            if prop == pid and total.get("known_findings", {}).get(name, 0) > 0:
                print(f"KNOWN-FINDING: property={pid} {name}: {what}")
    evidence(pid, tier, seed, total, smp, time.time() - start, 1 if status == 1 else 0, notes)
    return status


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
