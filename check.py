#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]   decide one property by simulation.

Exit 0: held in every simulated run. Exit 1: violated; the last lines of output
name the minimised replay file. Anything else: the check itself failed.
"""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sim"))
sys.dont_write_bytecode = True
import build as simbuild
from budget import BUDGET, PROBES, FAULTS, STRATEGIES, RULE, REAL, STUB


def die(msg):
    sys.stderr.write("check error: %s\n" % msg)
    sys.exit(2)


def run(cmd, timeout):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        die("timed out: %s" % " ".join(cmd))
    return p.returncode, p.stdout, p.stderr


def symbolise(exe, text):
    out = []
    for pc in sorted(set(re.findall(r"pc (0x[0-9a-f]+)", text))):
        try:
            p = subprocess.run(["llvm-symbolizer", "-e", exe, pc], stdout=subprocess.PIPE, text=True, timeout=60)
            fr = [l for l in p.stdout.splitlines() if l.strip()][:6]
            out.append("# pc %s: %s" % (pc, " <- ".join(fr)))
        except OSError:
            pass
    return out


def known_findings(prop):
    """lines `finding: property=<id> class=<class> ops=<op,op..> <what fails>`; `fixed:` lines suppress nothing"""
    res = []
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) replay=(\S+) (.*)", l.strip())
                if m and m.group(1) == prop:
                    res.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return res


def main():
    if len(sys.argv) < 2:
        die("usage: check.py PROPERTY [--tier quick|thorough]")
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        die("unknown tier " + tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        die("VERIF_SEED is not an integer")
    if prop not in BUDGET:
        die("unknown property " + prop)
    t0 = time.time()
    exe = simbuild.build()
    if not exe:
        die("the simulator does not build from the current tree")
    tb = time.time() - t0
    runs, limit = BUDGET[prop][tier]
    runs = int(os.environ.get("VERIF_RUNS", runs))
    workers = max(1, min(16, os.cpu_count() or 1))
    useed = str(seed & 0xffffffffffffffff)
    common = ["--prop", prop, "--seed", useed]

    for rep, what in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))

    out = os.path.join(simbuild.OUT, "batch-%s.json" % prop)
    rc, so, se = run([exe, "batch"] + common + ["--from", "0", "--to", str(runs), "--workers", str(workers),
                                                "--limit", str(limit), "--out", out], limit + 300)
    if rc not in (0, 1):
        die("batch ended with %d\n%s" % (rc, (so + se)[-3000:]))
    with open(out) as f:
        b = json.load(f)

    if rc == 1:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        rep = os.path.join(VERIF, "replays", "%s-seed%s-%s.txt" % (prop, useed, tier))
        index, last = b["violIndex"], ""
        for attempt in range(4):
            rc, so, se = run([exe, "shrink"] + common + ["--index", str(index), "--file", rep, "--secs", "60"], 400)
            if rc == 1:
                rc2, so2, se2 = run([exe, "replay", rep], 200)
                if rc2 == 1:
                    env = symbolise(exe, so2)
                    with open(rep, "a") as f:
                        f.write("".join(l + "\n" for l in env))
                    print(so.strip())
                    print(so2.strip())
                    for l in env:
                        print(l)
                    evidence(prop, tier, seed, b, runs, t0, tb, 1, None)
                    print("VIOLATION property=%s replay=%s" % (prop, rep))
                    sys.exit(1)
                last = "replay in a fresh process ended with %d\n%s" % (rc2, so2 + se2)
            else:
                last = "shrink ended with %d\n%s" % (rc, so + se)
            sys.stderr.write("run %d failed but was not reproduced exactly: %s\n" % (index, last[-600:]))
            # look for the next failing run
            rc, so, se = run([exe, "batch"] + common + ["--from", str(index + 1), "--to", str(runs), "--workers", str(workers),
                                                        "--limit", "60", "--out", out + ".2"], 400)
            if rc != 1:
                break
            with open(out + ".2") as f:
                index = json.load(f)["violIndex"]
        die("a run failed but could not be reproduced exactly: " + last[-2000:])

    # the same runs again, in other processes and with another number of workers
    nd = min(b["runs"], 400 if tier == "quick" else 4000)
    h = []
    for w in (workers, 3):
        rc, so, se = run([exe, "batch"] + common + ["--to", str(nd), "--workers", str(w), "--limit", "600"], 900)
        if rc != 0:
            die("repetition of the first %d runs ended with %d\n%s" % (nd, rc, se[-2000:]))
        h.append(json.loads(so)["logHash"])
    if h[0] != h[1]:
        die("the first %d runs did not repeat exactly: %s" % (nd, h))
    evidence(prop, tier, seed, b, runs, t0, tb, 0, {"runs_repeated": nd, "processes": 2, "worker_counts": [workers, 3], "event_log_hash": h[0]})
    print("OK property=%s runs=%d distinct=%d steps=%d faults=%d wall=%.1fs" % (
        prop, b["runs"], b["distinctSched"], b["steps"], sum(b["fired"]), time.time() - t0))


def evidence(prop, tier, seed, b, runs, t0, tb, violations, determinism):
    wall = max(b["wall"], 1e-3)
    cov = {
        "evaluations": b["runs"],
        "distinct_nontrivial": b["distinctSched"],
        "rule": RULE,
        "samples": b["samples"],
        "runs_planned": runs,
        "reference_runs": b["refRuns"],
        "rehearsal_runs": b["rehearsals"],
        "runs_per_hour": int(b["runs"] / wall * 3600),
        "seeds_per_hour": int(b["runs"] / wall * 3600),
        "simulated_time_steps": b["steps"],
        "longest_run_steps": b["maxSteps"],
        "distinct_event_logs": b["distinctLog"],
        "scheduling": {"context_switches": b["switches"], "preemptions": b["preemptions"], "blocked_waits": b["blocked"],
                       "memory_accesses_checked": b["accesses"], "synchronisation_operations": b["syncops"],
                       "strategies": {n: c for n, c in zip(STRATEGIES, b["strategies"]) if c},
                       "threads": {str(i): c for i, c in enumerate(b["threads"]) if c}},
        "faults": {"planned": dict(zip(FAULTS, b["planned"])), "fired": dict(zip(FAULTS, b["fired"])),
                   "runs_with_a_fault": b["faultRuns"], "runs_without": b["faultFreeRuns"], "allocations_seen": b["allocs"]},
        "operations": {"total": b["ops"], "ok": b["opsOk"], "ended_by_fault": b["opsFailed"], "refused_as_documented": b["opsRefused"], "by_kind": b["opKinds"]},
        "probes": {PROBES.get(i, "probe %d" % i): {"hits": n, "runs": r} for i, (n, r) in enumerate(zip(b["probes"], b["probeRuns"])) if n or i in PROBES},
        "components_real": REAL,
        "components_stubbed": STUB,
        "build_s": round(tb, 2),
    }
    if determinism:
        cov["determinism"] = determinism
    e = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": ["sequentially consistent execution between scheduling points; data races are reported instead of weak-memory outcomes",
                         "seeded search: schedules and fault positions outside the sample are not covered"],
         "violations": violations, "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))


if __name__ == "__main__":
    main()
