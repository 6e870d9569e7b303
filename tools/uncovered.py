#!/usr/bin/env python3
"""uncovered.py [SECONDS] [FILE-PATTERN] [PROP ...]: which basic blocks of freediag's sources no scenario reaches
(a development aid: runs every check for SECONDS and lists, per source file, the lines never executed)."""
import os, re, subprocess, sys, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
secs = sys.argv[1] if len(sys.argv) > 1 else "15"
pat = sys.argv[2] if len(sys.argv) > 2 else ""
binp = subprocess.run([sys.executable, V + "/tools/build.py"], stdout=subprocess.PIPE, text=True).stdout.strip()
props = sys.argv[3:] or sorted({l.split()[0] for l in subprocess.run([binp, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()})
tmp = os.path.join(os.path.dirname(binp), "cov")
os.makedirs(tmp, exist_ok=True)
hit = set()
for p in props:
    f = os.path.join(tmp, p)
    subprocess.run([binp, "check", p, "--seconds", secs, "--out", f + ".json", "--replay", f + ".rep", "--known", "*"],
                   env=dict(os.environ, SIM_COV=f), stdout=subprocess.DEVNULL)
    hit |= {int(x, 16) for x in open(f)}
sites = {}
fn = ""
dis = subprocess.run(["objdump", "-d", "--no-show-raw-insn", binp], stdout=subprocess.PIPE, text=True).stdout.splitlines()
calls = []
for i, l in enumerate(dis):
    if "call" in l and "__sanitizer_cov_trace_pc" in l:
        m = re.match(r"\s*([0-9a-f]+):", dis[i + 1])
        if m:
            calls.append(int(m.group(1), 16))
miss = [c for c in calls if c not in hit]
out = subprocess.run(["addr2line", "-e", binp], input="\n".join("%x" % c for c in calls), stdout=subprocess.PIPE, text=True).stdout.splitlines()
files, bad, tot = collections.defaultdict(set), collections.Counter(), collections.Counter()
good = collections.defaultdict(set)
for c, o in zip(calls, out):
    f, l = o.split(" ")[0].rsplit(":", 1)
    f = os.path.relpath(f, os.path.realpath(os.environ.get("VP_REPO", "/repo")) + "/scantool") if f.startswith("/") else f
    tot[f] += 1
    if c in hit:
        good[f].add(l)
    else:
        bad[f] += 1
        files[f].add(int(l) if l.isdigit() else 0)
for f in sorted(tot):
    print("%-28s %4d of %4d blocks reached" % (f, tot[f] - bad[f], tot[f]))
for f in sorted(files):
    if pat and not re.search(pat, f):
        continue
    try:
        src = open(os.path.join(os.environ.get("VP_REPO", "/repo"), "scantool", f), errors="replace").read().split("\n")
    except OSError:
        src = []
    print("\n== " + f)
    for l in sorted(files[f]):
        print("%5d %s%s" % (l, "" if str(l) in good[f] else "! ", src[l - 1].rstrip() if 0 < l <= len(src) else ""))
