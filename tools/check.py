#!/usr/bin/env python3
"""Runs the check of one property: builds the harness from /repo's working
tree, runs seeded simulations on all cores, minimises and double-checks every
violation, and writes the evidence file.

usage: check.py PROPERTY      (VERIF_SEED, VERIF_TIER from the environment)
exit: 0 held, 1 violation(s) printed, anything else: error of the check
"""
import json
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build  # noqa: E402
from checks import CHECKS, HARNESS  # noqa: E402

WORKERS = int(os.environ.get("DSIM_WORKERS", str(min(8, os.cpu_count() or 1))))


def log(*a):
    print(*a, flush=True)


def known_findings():
    """lines of known_findings.txt:
       known: property=<id> match=<regex on class|message> :: <what fails>
       fixed: property=<id> <commit> <what failed>      (suppresses nothing)
    """
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(p):
        return res
    with open(p, encoding="utf-8") as f:
        for line in f:
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", line)
            if m:
                res.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return res


def last_json(text):
    for line in reversed(text.splitlines()):
        line = line.strip()
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                return None
    return None


def run_batch(binary, prop, seed, seconds, known=()):
    """All workers; returns list of batch results."""
    base = seed * 100_000_000 + 1
    procs = []
    outs = []
    odir = os.path.join(build.OUT, "batch", prop)
    os.makedirs(odir, exist_ok=True)
    for i in range(WORKERS):
        path = os.path.join(odir, f"{os.getpid()}-{i}.json")
        outs.append(path)
        with open(path, "w") as f:
            procs.append(subprocess.Popen(
                [binary, "batch", "--prop", prop, "--from", str(base + i),
                 "--stride", str(WORKERS), "--time", str(seconds),
                 "--dup", "50", "--max-violations", "2"] +
                [x for k in known for x in ("--known", k.pattern)],
                stdout=f, stderr=subprocess.DEVNULL))
    deadline = time.time() + seconds + 60
    found_at = None
    while any(p.poll() is None for p in procs):
        time.sleep(0.1)
        now = time.time()
        if found_at is None:
            for p, o in zip(procs, outs):
                if p.poll() is not None and os.path.getsize(o) > 0:
                    with open(o) as f:
                        r = last_json(f.read())
                    if r and r["violations"]:
                        found_at = now
                        break
        if now > deadline or (found_at is not None and now > found_at + 5):
            for p in procs:
                if p.poll() is None:
                    p.kill()
    res = []
    bad = 0
    for p, o in zip(procs, outs):
        with open(o) as f:
            r = last_json(f.read())
        os.unlink(o)
        if r is None:
            bad += 1
        else:
            res.append(r)
    return res, bad, found_at is not None


def confirm(binary, prop, v, budget, rdir):
    """Minimise and replay in fresh processes; returns (path, report) or
    (None, reason)."""
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}-{v['seed']}.json")
    p = subprocess.run([binary, "minimise", "--prop", prop, "--seed",
                        str(v["seed"]), "--budget", str(budget), "--out",
                        path], stdout=subprocess.PIPE,
                       stderr=subprocess.DEVNULL, text=True)
    rep = last_json(p.stdout)
    if p.returncode != 0 or rep is None or "error" in rep:
        return None, "minimise: " + json.dumps(rep)[:600]
    hashes = []
    for _ in range(2):
        p = subprocess.run([binary, "replay", "--file", path],
                           stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True)
        r = last_json(p.stdout)
        if r is None or r.get("class") != rep["class"]:
            return None, "replay differs: " + json.dumps(r)[:300]
        hashes.append(r["hash"])
    if hashes[0] != hashes[1] or hashes[0] != rep["hash"]:
        return None, "replay hash differs"
    return path, rep


def merge(dst, src):
    for k, v in src.items():
        dst[k] = dst.get(k, 0) + v


def main():
    prop = sys.argv[1]
    chk = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ok, msg, info = build.build([chk["harness"]])
    if not ok:
        log(msg[-4000:])
        log(f"ERROR: build of harness {chk['harness']} failed")
        return 2
    t_build = time.time() - t0
    binary = info[chk["harness"]]["bin"]
    seconds = float(os.environ.get("DSIM_SECONDS", chk[tier]))
    tb = time.time()
    listed = [k for k in known_findings() if k[0] == prop]
    res, bad, _ = run_batch(binary, prop, seed, seconds,
                            [k[1] for k in listed])
    batch_wall = time.time() - tb
    if not res:
        log("ERROR: no worker gave a result")
        return 2

    tot = {"runs": 0, "steps": 0, "switches": 0, "preempt": 0, "sysops": 0,
           "dups": 0, "dup_mismatch": 0, "nontrivial": 0}
    statuses, faults, fruns, probes = {}, {}, {}, {}
    scheds, states = set(), set()
    sim_s = 0.0
    viol, samples, inconcl = [], [], []
    for r in res:
        for k in tot:
            tot[k] += r[k]
        merge(statuses, r["statuses"])
        merge(faults, r["faults"])
        merge(fruns, r["runs_with_fault"])
        merge(probes, r["probes"])
        scheds.update(r["scheds"])
        states.update(r["states"])
        sim_s += r["sim_seconds"]
        viol += r["violations"]
        samples += r["samples"]
        inconcl += r["inconclusive"]
    log(f"{prop}: {tot['runs']} runs in {batch_wall:.1f}s "
        f"({statuses}), {len(scheds)} schedules, {len(states)} states, "
        f"faults {faults}, probes {probes}")
    for r in res:
        for i in r.get("others", [])[:1]:
            log("note:", json.dumps(i))
    for i in inconcl[:3]:
        log("inconclusive:", json.dumps(i)[:400])

    # judge the violations: one per class
    known = [k for k in known_findings() if k[0] == prop]
    classes = {}
    for v in sorted(viol, key=lambda v: v["seed"]):
        classes.setdefault(v["class"], []).append(v)
    reported, errors, seen_known = [], [], set()
    for r in res:
        for pat in r.get("known", {}):
            seen_known.update(k[2] for k in known if k[1].pattern == pat)
    left = max(60.0, (300.0 if tier == "quick" else 900.0))
    for cls, vs in list(classes.items())[:4]:
        kf = [k for k in known
              if k[1].search(cls) or k[1].search(vs[0]["msg"])]
        if kf:
            seen_known.add(kf[0][2])
            continue
        reason = None
        for v in vs[:3]:
            b0 = time.time()
            path, rep = confirm(binary, prop, v, min(60.0, left / 2),
                                os.path.join(VERIF, "replays"))
            left = max(10.0, left - (time.time() - b0))
            if path is not None:
                reported.append((cls, v, path, rep))
                reason = None
                break
            reason = rep
        if reason is not None:
            errors.append((cls, vs[0]["seed"], reason))
    for _, _, what in known:
        log(f"KNOWN-FINDING: property={prop} {what}")
    for cls, v, path, rep in reported:
        log(f"violation of {prop} [{cls}] seed {v['seed']}: {rep['msg']}")
        log(f"  minimised: {json.dumps(rep['minimised'])} from "
            f"{json.dumps(rep['original'])}")
        rel = os.path.relpath(path, VERIF)
        log(f"VIOLATION property={prop} replay={rel}")
    for cls, s, reason in errors:
        log(f"UNCONFIRMED [{cls}] seed {s}: {reason}")

    wall = time.time() - t0
    h = HARNESS[chk["harness"]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": tot["nontrivial"],
            "rule": "one evaluation is one seeded simulated run of: "
                    + chk["what"] + ". Seeds are consecutive from "
                    "VERIF_SEED*1e8+1; each seed draws its own workload, "
                    "schedule strategy and fault mix. A run counts as "
                    "non-trivial if its event-log hash is new (within the "
                    "worker) and at least one preemption or fault happened.",
            "samples": samples[:3],
            "simulated_seconds": round(sim_s, 3),
            "runs_per_hour": int(tot["runs"] * 3600 / max(batch_wall, 0.01)),
            "seeds_per_hour": int((tot["runs"]) * 3600 /
                                  max(batch_wall, 0.01)),
            "run_outcomes": statuses,
            "faults_injected": faults,
            "runs_with_fault": fruns,
            "probes": probes,
            "distinct_interleavings": len(scheds),
            "interleaving_measure": "distinct hashes of the sequence of "
                                    "(scheduling decision, chosen thread)",
            "distinct_states": len(states),
            "state_measure": "distinct hashes of abstract states registered "
                             "by the harness (0: harness registers none)",
            "preemptions": tot["preempt"],
            "context_switches": tot["switches"],
            "simulated_system_calls": tot["sysops"],
            "instrumented_steps": tot["steps"],
            "determinism_rechecks": tot["dups"],
            "determinism_mismatches": tot["dup_mismatch"],
            "components_real": h["real"],
            "components_stub": h["stub"],
            "repo_sources_built": info[chk["harness"]].get("repo_sources", []),
            "inconclusive_samples": inconcl[:3],
            "workers": WORKERS,
            "workers_lost": bad,
            "build_s": round(t_build, 1),
            "unconfirmed": [f"{c_} seed {s_}: {r_}" for c_, s_, r_ in errors],
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": chk["assume"] + [
            "schedules and faults are sampled, not enumerated",
            "sequentially consistent memory; preemption at synchronisation "
            "operations, system calls and instrumented memory accesses of "
            "the repository's own code",
            "the simulator's model of POSIX files, processes and threads"],
        "wall_s": round(wall, 2),
        "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if reported:
        return 1
    if errors or tot["dup_mismatch"] > 0:
        log("ERROR: non-reproducible behaviour of the simulation")
        return 3
    if bad:
        log(f"ERROR: {bad} workers gave no result")
        return 3
    bad_runs = statuses.get("engine_error", 0) + statuses.get("timeout", 0) + \
        statuses.get("inconclusive", 0)
    if bad_runs * 20 > tot["runs"]:
        log(f"ERROR: {bad_runs} of {tot['runs']} runs gave no answer")
        return 3
    log(f"{prop}: held on everything explored ({wall:.1f}s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
