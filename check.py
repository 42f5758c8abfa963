#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by seeded simulation.

Exit 0: the property held on every simulated run.  Exit 1: it is broken; the last
line is "VIOLATION property=<id> replay=<file>".  Any other exit: no answer.
"""
import collections, glob, hashlib, json, os, shutil, signal, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build
from props import PROPS, HARNESS_INFO

SYNC = {"data-race", "deadlock", "memory-error", "crash", "lock-misuse"}

def log(*a):
    print(*a, flush=True)

def fail(msg, code=2):
    log("ERROR " + msg)
    sys.exit(code)

class Part:
    def __init__(self, exe, harness, mode, classes, weight):
        self.exe, self.harness, self.mode, self.classes, self.weight = exe, harness, mode, classes, weight

    def relevant(self, cls):
        return self.classes is None or cls in self.classes

def run_batch(part, seed, seconds, count, work, procs, hang):
    """Runs `procs` batch processes; returns (lines, complete summaries)."""
    ps, outs = [], []
    for i in range(procs):
        o = os.path.join(work, f"{part.harness}.{part.mode}.{i}")
        outs.append(o)
        ps.append(subprocess.Popen([part.exe, "batch", "--mode", part.mode, "--seed", str(seed), "--from", str(i),
                                    "--step", str(procs), "--count", str(max(1, count // procs)),
                                    "--seconds", str(int(max(1, seconds))), "--max-violations", "40",
                                    "--dup-every", "40", "--hang", str(hang), "--out", o],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True))
    deadline = time.time() + seconds + hang + 90
    found_at = None
    while any(p.poll() is None for p in ps):
        time.sleep(0.2)
        if found_at is None:
            for o in outs:
                try:
                    with open(o) as f:
                        if any(l.startswith("V ") and l.endswith("\n") and part.relevant(l.split()[2]) for l in f):
                            found_at = time.time()
                            break
                except OSError:
                    pass
        if (found_at and time.time() - found_at > 2) or time.time() > deadline:
            for p in ps:
                if p.poll() is None:
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
            break
    for p in ps:
        p.wait()
    lines = []
    for o in outs:
        try:
            with open(o, errors="replace") as f:
                lines += [l[:-1] for l in f if l.endswith("\n")]  # a killed process leaves a partial line
        except OSError:
            pass
    return lines

def replay(part, path, hang):
    try:
        r = subprocess.run([part.exe, "replay", path, "--mode", part.mode, "--hang", str(hang)],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace",
                           timeout=hang + 60)
    except subprocess.TimeoutExpired:
        return None
    first = (r.stdout.splitlines() or [""])[0]
    d = dict(x.split("=", 1) for x in first.split() if "=" in x)
    msg = (r.stdout.splitlines() + ["", ""])[1]
    return r.returncode, d.get("class"), d.get("hash"), msg

def confirm(prop, part, seed, cls, seconds, hang):
    """Minimises the run, then reproduces the replay file twice in fresh processes."""
    os.makedirs(V + "/replays", exist_ok=True)
    path = f"{V}/replays/{prop}-{part.harness}-{seed}.replay"
    if os.path.exists(path):
        os.unlink(path)
    h = min(hang, 8) if cls == "hang" else hang
    for budget in (seconds, 0):
        try:
            r = subprocess.run([part.exe, "minimize", "--mode", part.mode, "--run-seed", str(seed), "--out", path,
                                "--property", prop, "--seconds", str(budget), "--hang", str(h)],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=budget * 2 + 150)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode != 0 or not os.path.exists(path):
            continue
        a, b = replay(part, path, h), replay(part, path, h)
        if a and b and a[0] == 1 and b[0] == 1 and a[1] == b[1] and (a[2] == b[2] or cls == "hang"):
            return path, a[1], a[3]
    return None

def corpus_files(harness):
    return sorted(glob.glob(f"{V}/corpus/{harness}/*"))

def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if prop not in PROPS:
        fail("unknown property " + prop)
    P = PROPS[prop]
    total = float(os.environ.get("VERIF_SECONDS", P.get("thorough" if tier == "thorough" else "quick",
                                                        900 if tier == "thorough" else 45)))
    hang = 20 if tier == "quick" else 60
    procs = int(os.environ.get("VERIF_PROCS", "8"))
    names = []
    for h, m, c, w in P["parts"]:
        if h not in names:
            names.append(h)
    try:
        exes = build.build(names)
    except build.BuildError as e:
        log(str(e))
        fail("the tree under test could not be built for simulation", 3)
    t_build = time.time() - t0
    parts = [Part(exes[h], h, m, c, w) for h, m, c, w in P["parts"]]
    work = f"/tmp/verif-{prop}-{os.getpid()}"
    os.makedirs(work, exist_ok=True)
    try:
        rc = explore(prop, P, tier, seed, total, hang, procs, parts, work, t0, t_build)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def load_known(prop):
    """Entries 'finding: property=<id> harness=<h> replay=<file> class=<c> <text>'."""
    res = []
    try:
        for l in open(V + "/known_findings.txt"):
            if l.startswith("finding: "):
                d = dict(x.split("=", 1) for x in l[9:].split() if "=" in x)
                if d.get("property") == prop:
                    res.append((d, l[9:].strip()))
    except OSError:
        pass
    return res

def explore(prop, P, tier, seed, total, hang, procs, parts, work, t0, t_build):
    agg = collections.Counter()
    faults, fault_runs, probes = collections.Counter(), collections.Counter(), collections.Counter()
    strategies, workers = collections.Counter(), collections.Counter()
    sched, states = set(), set()
    samples, per_part = [], []
    violations, nondet, internal = [], [], []
    corpus_runs = 0
    tw = sum(p.weight for p in parts)
    base = (seed * 1000 + int(hashlib.sha1(prop.encode()).hexdigest()[:6], 16) % 997) * 7 + (3 if tier == "thorough" else 0)
    explore_s = 0.0
    for pi, part in enumerate(parts):
        # The workloads of previously repaired defects, under fresh schedules.
        jobs = []
        n = 12 if tier == "quick" else 200
        for f in corpus_files(part.harness):
            jobs.append((f, subprocess.Popen([part.exe, "sweep", f, "--mode", part.mode, "--count", str(n), "--seed",
                                              str(seed), "--hang", str(hang)], stdout=subprocess.PIPE,
                                             stderr=subprocess.DEVNULL, text=True, errors="replace")))
            while sum(1 for _, j in jobs if j.poll() is None) >= procs:
                time.sleep(0.01)
        for f, j in jobs:
            out = j.communicate()[0].splitlines()
            corpus_runs += n
            for l in out[:-1]:
                w = l.split(None, 2)
                if len(w) > 1 and part.relevant(w[1]):
                    violations.append((part, None, w[1], f"{l} (workload {os.path.basename(f)})", (f, w[0])))
                    break
        t1 = time.time()
        lines = run_batch(part, base + pi * 13, total * part.weight / tw, P.get("count", 100000000), work, procs, hang)
        dt = time.time() - t1
        explore_s += dt
        runs = 0
        for l in lines:
            k = l[:2]
            if k == "R ":
                w = l.split(None, 4)
                sched.add(w[2]); states.add((part.harness, part.mode, w[3]))
                runs += 1
                if runs in (1, 2):
                    samples.append({"harness": part.harness, "mode": part.mode, "run_seed": int(w[1]),
                                    "outcome": w[4] if len(w) > 4 else ""})
            elif k == "V ":
                w = l.split(None, 3)
                if part.relevant(w[2]):
                    violations.append((part, int(w[1]), w[2], w[3] if len(w) > 3 else "", None))
                else:
                    agg["other_class"] += 1
            elif k == "N ":
                nondet.append(l)
            elif k == "I ":
                internal.append(l)
            elif k == "S ":
                s = json.loads(l[2:])
                for x in ("runs", "dups", "meaningless", "events", "sync_points", "switches", "preemptions", "contended",
                          "pool_tasks", "accesses_race_checked", "truncated"):
                    agg[x] += s[x]
                agg["max_runnable"] = max(agg["max_runnable"], s["max_runnable"])
                for x, y in s["faults"].items():
                    faults[x] += y["fired"]; fault_runs[x] += y["runs"]
                for x, y in s["probes"].items():
                    probes[part.harness + "." + x] += y
                for x, y in s["strategies"].items():
                    strategies[x] += y
                for x, y in s["workers"].items():
                    workers[x] += y
        per_part.append({"harness": part.harness, "mode": part.mode, "runs": runs, "seconds": round(dt, 1)})
        if violations:
            break
    runs = sum(p["runs"] for p in per_part)
    for s in samples[:3]:
        part = next(p for p in parts if p.harness == s["harness"] and p.mode == s["mode"])
        g = subprocess.run([part.exe, "gen", "--mode", part.mode, "--run-seed", str(s["run_seed"])],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout
        s["workload"] = g[:1500]
    reported = []
    if violations:
        # several candidate runs: prefer the ones that are not plain crashes/hangs
        seen, order = set(), []
        for v in sorted(violations, key=lambda v: (v[2] in ("hang", "no-progress"), v[2] == "crash")):
            if (v[2], v[0].mode) not in seen or len(order) < 6:
                seen.add((v[2], v[0].mode)); order.append(v)
        for part, sd, cls, msg, corp in order[:6]:
            log(f"violation candidate: harness={part.harness} mode={part.mode} seed={sd} class={cls}: {msg[:300]}")
            if corp:
                res = confirm_corpus(prop, part, corp, hang)
            else:
                res = confirm(prop, part, sd, cls, 30 if tier == "quick" else 120, hang)
            if res:
                log(f"{res[1]}: {res[2][:600]}")
                reported.append(res)
                break
            log("candidate did not reproduce from its replay file")
            if time.time() - t0 > 600:
                break
    info = [HARNESS_INFO[h] for h in dict.fromkeys(p.harness for p in parts)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs + corpus_runs,
            "distinct_nontrivial": max(0, len(states) - agg["meaningless"]),
            "rule": P["rule"] + " A run counts as distinct and non-trivial when the hash of its complete event trace "
                    "(workload-dependent accesses, scheduling decisions and fired faults) differs from the one of every other "
                    "run, and the workload was meaningful.",
            "samples": samples[:6],
            "simulated_runs": runs, "corpus_runs": corpus_runs,
            "seeds_per_hour": int(runs / max(explore_s, 0.001) * 3600),
            "simulated_time_ns": agg["events"], "simulated_time_unit": "one instrumented event advances the simulated clock by 1 ns",
            "synchronisation_points": agg["sync_points"], "context_switches": agg["switches"],
            "preemptions": agg["preemptions"], "contended_locks": agg["contended"], "pool_tasks": agg["pool_tasks"],
            "memory_accesses_checked_for_races": agg["accesses_race_checked"], "max_runnable_tasks": agg["max_runnable"],
            "distinct_schedules": len(sched), "distinct_traces": len(states),
            "distinct_measure": "schedules: hash of the sequence of scheduling decisions; traces: hash of the whole event trace",
            "faults": {k: {"fired": faults[k], "runs": fault_runs[k]} for k in faults},
            "probes": dict(probes), "strategies": dict(strategies), "workers": dict(workers),
            "determinism_rechecks": agg["dups"], "nondeterministic": len(nondet),
            "parts": per_part,
            "real_code": sorted(set(sum((i["real"] for i in info), []))),
            "stubs": sorted(set(sum((i["stub"] for i in info), []))),
        },
        "assumptions": P.get("assumptions", []) + [
            "executions are sequentially consistent interleavings of instrumented accesses (weak-memory effects only appear as reported races)",
            "code inside the prebuilt LLVM/MLIR libraries is scheduled atomically between synchronisation points"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(reported),
    }
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{prop} {tier}: {runs} simulated runs in {explore_s:.0f} s ({agg['events']} events, {len(sched)} distinct schedules), "
        f"{corpus_runs} corpus runs, build {t_build:.0f} s")
    if reported:
        log(f"VIOLATION property={prop} replay={reported[0][0]}")
        return 1
    if violations:
        log("ERROR violations were seen but could not be reproduced from a replay file")
        return 2
    for l in (nondet + internal)[:5]:
        log("ERROR " + l[:300])
    if nondet or internal:
        return 2
    if runs == 0 or agg["meaningless"] * 2 > runs:
        log("ERROR too few meaningful runs")
        return 2
    for d, text in load_known(prop):
        log("KNOWN-FINDING: " + text)
    return 0

def confirm_corpus(prop, part, corp, hang):
    """A corpus workload failed under a fresh schedule: the replay names that seed."""
    f, cseed = corp
    os.makedirs(V + "/replays", exist_ok=True)
    path = f"{V}/replays/{prop}-{part.harness}-{os.path.basename(f)}"
    out, wl = [f"# deterministic simulation replay\nproperty {prop}\nmode {part.mode}\nclass corpus\nmessage corpus\n"
               f"config seed={cseed} alloc=0 workers=0 casInv=0 maxEvents=0\nschedule drawn-from-seed\n"], False
    for l in open(f):
        wl = wl or l.startswith("WORKLOAD")
        if wl:
            out.append(l)
    with open(path, "w") as g:
        g.write("".join(out))
    a, b = replay(part, path, hang), replay(part, path, hang)
    if a and b and a[0] == 1 and b[0] == 1 and a[1] == b[1] and (a[2] == b[2] or a[1] == "hang"):
        return path, a[1], a[3]
    return None

if __name__ == "__main__":
    main()
