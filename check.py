#!/usr/bin/env python3
"""Decides one property by deterministic simulation.

  check.py C04                 quick tier (VERIF_TIER=thorough for the deep one)
  check.py --replay FILE       re-executes a recorded violation
  check.py --setup             builds only

Exit 0: held on everything explored; 1: VIOLATION printed; anything else: error.
"""
import json, os, re, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B
import sym
from props import PROPS, RUNS

KNOWN = VERIF + "/known_findings.txt"


def workers():
    return max(1, len(os.sched_getaffinity(0)))


def known_lines(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            p = l.rstrip("\n").split("\t")
            if len(p) >= 3 and p[0] == prop:
                out.append((p[1], p[2], p[3] if len(p) > 3 else p[2]))
    return out


def replay(path):
    exe, _ = B.build()
    if not exe:
        return 2
    r = subprocess.run([exe, "--replay", path, "--verbose"], capture_output=True, text=True, errors="replace")
    sys.stdout.write(sym.symbolize(exe, r.stdout))
    sys.stderr.write(r.stderr)
    return r.returncode


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1", 0)
    spec = next(p for p in PROPS if p["id"] == prop)
    t0 = time.time()
    exe, build_s = B.build(True)
    if not exe:
        return 2
    count, cap = RUNS[prop][tier]
    count = int(os.environ.get("SIM_RUNS", count))
    nw = workers()
    work = "%s/.build/run-%s-%d" % (VERIF, prop, os.getpid())
    os.makedirs(work, exist_ok=True)
    rdir = VERIF + "/replays"
    os.makedirs(rdir, exist_ok=True)
    procs = []
    for i in range(nw):
        out = "%s/%d" % (work, i)
        rp = "%s/%d.replay" % (work, i)
        n = count // nw + (1 if i < count % nw else 0)
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--start", str(i), "--stride", str(nw), "--count", str(n),
               "--deadline", str(cap), "--json", out + ".json", "--states", out + ".st", "--replay-out", rp, "--cpu", str(i),
               "--min-budget", "15" if tier == "quick" else "60"]
        if os.path.exists(KNOWN):
            cmd += ["--known", KNOWN]
        procs.append((i, subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w")), out, rp))
    results, bad, found = {}, [], None
    live = list(procs)
    t_run = time.time()
    while live:
        time.sleep(0.02)
        for item in list(live):
            i, p, out, rp = item
            rc = p.poll()
            if rc is None:
                continue
            live.remove(item)
            if os.path.exists(out + ".json"):
                results[i] = json.load(open(out + ".json"))
            if rc == 1 and found is None:
                found = (i, out, rp)
            elif rc not in (0, 1):
                bad.append((i, rc, out))
        if found:
            time.sleep(0.1)
            for _, p, _, _ in live:
                p.terminate()
            for i, p, out, _ in live:
                p.wait()
            live = []
    run_s = time.time() - t_run
    rs = list(results.values())

    def tot(k):
        return sum(r[k] for r in rs)

    def merged(k):
        m = {}
        for r in rs:
            for a, b in r[k].items():
                m[a] = m.get(a, 0) + b
        return m
    sets = [set(), set(), set()]
    for i, _, out, _ in procs:
        if os.path.exists(out + ".st"):
            d = open(out + ".st", "rb").read()
            for kind, h in struct.iter_unpack("<QQ", d):
                sets[kind].add(h)
    wall = time.time() - t0
    runs = tot("runs")
    samples = [s[:1400] for r in rs[:2] for s in r["samples"][:2]]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(sets[2]),
        "rule": spec["rule"],
        "samples": samples or ["no run completed"],
        "runs_per_hour": int(runs / max(run_s, 1e-3) * 3600),
        "seeds": {"base": seed, "runs": runs, "derivation": "run seed = mix(mix(VERIF_SEED, property), run index); indexes 0..%d" % max(0, runs - 1)},
        "simulated_seconds": round(tot("sim_s"), 3) if rs else 0,
        "distinct_schedules": len(sets[0]),
        "distinct_schedules_measure": "hash of the sequence of (thread, synchronisation operation, object) and of every preemptive switch of a run",
        "distinct_states": len(sets[1]),
        "distinct_states_measure": spec.get("state_measure", "fingerprints of the generated cases (configuration and data shape)"),
        "scheduling_points": tot("points"), "synchronisation_operations": tot("syncs"), "context_switches": tot("switches"),
        "simulated_threads": tot("threads"), "max_threads_in_a_run": max([r["max_threads"] for r in rs], default=0),
        "faults_injected": merged("faults"), "runs_with_faults": tot("runs_with_fault"),
        "reached": merged("probes"), "workloads": merged("workloads"),
        "determinism_rechecks": tot("twice"),
        "determinism_rechecks_meaning": "runs executed again from the seed and a third time from the recorded decisions alone; all history hashes identical",
        "real_components": spec["real"], "stubbed_components": spec["stub"],
        "build_s": round(build_s, 1), "workers": nw, "planned_runs": count,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov, "wall_s": round(wall, 2),
          "assumptions": spec["assumptions"], "violations": 1 if found else 0}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
    hits = merged("known")
    for kind, text, desc in known_lines(prop):
        print("KNOWN-FINDING: property=%s %s [%s] (seen in %d runs)" % (prop, desc, kind, hits.get(text, 0)))
    code = 0
    if found:
        i, out, rp = found
        v = results[i]["violation"]
        sys.stderr.write(sym.symbolize(exe, open(out + ".err", errors="replace").read()))
        dest = "%s/%s-%s.replay" % (rdir, prop, re.sub(r"[^a-z0-9-]", "", v["kind"]))
        txt = open(rp, errors="replace").read()
        head, sep, tail = txt.partition("\n--- ")
        open(dest, "w").write(head + sep + sym.symbolize(exe, tail))
        r = subprocess.run([exe, "--replay", dest], capture_output=True, text=True, errors="replace")
        print("%s in workload %s, run index %d: %s" % (v["kind"], v["workload"], v["index"], sym.symbolize(exe, v["message"])[:3000]))
        print(v["narrative"])
        print("replay in a fresh process: exit %d (%s)" % (r.returncode, {1: "reproduced exactly", 3: "violates, but differs in detail", 0: "passed"}.get(r.returncode, "error")))
        print("VIOLATION property=%s replay=%s" % (prop, dest))
        code = 1
    elif bad or len(results) != nw:
        for i, rc, out in bad:
            sys.stderr.write("worker %d: exit %d\n%s\n" % (i, rc, sym.symbolize(exe, open(out + ".err", errors="replace").read())))
        code = 3
    else:
        print("%s: held on %d simulated runs (%d distinct schedules, %d non-trivial), %d faults injected, %.1f s build + %.1f s search"
              % (prop, runs, len(sets[0]), len(sets[2]), sum(cov["faults_injected"].values()), build_s, run_s))
        if runs < count:
            print("note: the wall cap of %d s ended the search after %d of %d planned runs" % (cap, runs, count))
    subprocess.run(["/bin/rm", "-rf", work])
    return code


if __name__ == "__main__":
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        sys.exit(0 if B.build(True)[0] else 2)
    if len(a) == 2 and a[0] == "--replay":
        sys.exit(replay(a[1]))
    if len(a) == 1 and any(p["id"] == a[0] for p in PROPS):
        sys.exit(check(a[0]))
    sys.stderr.write(__doc__)
    sys.exit(64)
