#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: rebuild the simulator from /repo's working tree, search seeds for a
violation of the property, write evidence/<PROPERTY>.json. Exit 0 held, 1 violated, anything else = error."""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import info

prop = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
t0 = time.time()
p = subprocess.run([sys.executable, os.path.join(VERIF, "tools", "build.py")], stdout=subprocess.PIPE, text=True)
if p.returncode:
    print("build failed", file=sys.stderr)
    sys.exit(2)
binp = p.stdout.strip().splitlines()[-1]
tb = time.time()

known, fixed = [], []
for l in open(os.path.join(VERIF, "known_findings.txt")):
    l = l.strip()
    if l.startswith("finding: property=%s " % prop):
        cls = l.split("class=", 1)[1].split()[0]
        known.append((cls, l.split("class=", 1)[1].split(None, 1)[1]))
    elif l.startswith("fixed: property=%s " % prop):
        fixed.append(l[len("fixed: property=%s " % prop):])

evdir = os.path.join(VERIF, "evidence")
os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
out = os.path.join(evdir, ".%s.summary.json" % prop)
rep = os.path.join(evdir, "replay", "%s-seed%d.json" % (prop, seed))
secs = float(os.environ.get("VERIF_SECONDS", info.QUICK_SECONDS.get(prop, 15) if tier == "quick" else info.THOROUGH_SECONDS))
cmd = [binp, "check", prop, "--seed", str(seed), "--seconds", str(secs), "--out", out, "--replay", rep,
       "--workers", str(min(8, os.cpu_count() or 8)), "--minimise", "40" if tier == "quick" else "180"]
for c, _ in known:
    cmd += ["--known", c]
for f in (out, rep):
    if os.path.exists(f):
        os.unlink(f)
p = subprocess.run(cmd)
if p.returncode not in (0, 1) or not os.path.exists(out):
    print("simulator error (exit %d)" % p.returncode, file=sys.stderr)
    sys.exit(3)
s = json.load(open(out))
os.unlink(out)
wall = time.time() - t0
faults = {k[2:]: {"injected": v[0], "runs": v[1]} for k, v in sorted(s["counters"].items()) if k.startswith("f.")}
probes = {k[2:]: {"hits": v[0], "runs": v[1]} for k, v in sorted(s["counters"].items()) if k[:2] in ("p.", "s.")}
pi = info.PROPS[prop]
ev = {
    "property": prop, "tier": tier, "seed": seed, "level": "exploration",
    "coverage": {
        "evaluations": s["runs"],
        "distinct_nontrivial": s["distinct"],
        "rule": "One evaluation is one simulated run (one seed: one workload, one schedule, one fault sequence, in a process of its own). "
                "It is non-trivial when at least one oracle comparison was made in it; distinct counts different hashes of the full event log "
                "(every byte, level change, time stamp, scheduling decision and injected fault with its virtual time).",
        "samples": s["samples"] or ["(no sample)"],
        "seeds_per_hour": round(s["runs"] / max(s["wall_s"], 1e-3) * 3600),
        "simulated_seconds": s["sim_seconds"],
        "simulated_steps_system_calls": s["steps"],
        "basic_blocks_of_freediag_executed": s["basic_blocks"],
        "distinct_code_points_reached": s["coverage_pcs"],
        "operations": s["ops"], "oracle_comparisons": s["oracle"],
        "runs_with_faults": s["faulted_runs"],
        "faults_injected": faults, "probes_and_schedule_events": probes,
        "runs_per_scenario": s["scenarios"],
        "runs_discarded_as_not_applicable": s["discarded"], "runs_cut_by_wall_clock": s["timeouts"],
        "real_code": pi["real"], "stubbed": pi["stub"],
        "known_finding_hits": s["known"],
        "build_s": round(tb - t0, 2),
    },
    "assumptions": info.ASSUMPTIONS + pi.get("assume", []),
    "wall_s": round(wall, 2),
    "violations": 1 if s["rc"] == 1 else 0,
}
if s["violation"]:
    ev["coverage"]["violation"] = s["violation"]
with open(os.path.join(evdir, prop + ".json"), "w") as f:
    json.dump(ev, f, indent=1)
for c, what in known:
    print("KNOWN-FINDING: property=%s %s" % (prop, what))
print("%s: %d runs, %d distinct, %.0f simulated s, %d faults injected in %.1f s" % (prop, s["runs"], s["distinct"], s["sim_seconds"], sum(v["injected"] for v in faults.values()), wall))
if s["rc"] == 1:
    v = s["violation"]
    print("%s in %s (seed %d), %d decisions after minimisation: %s" % (v["class"], v["scenario"], v["seed"], v["decisions_after"], v["detail"]))
    print("VIOLATION property=%s replay=%s" % (prop, rep))
    sys.exit(1)
sys.exit(0)
