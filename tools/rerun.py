#!/usr/bin/env python3
"""tools/rerun.py REPLAY.json: rebuilds the harness for the configuration of a replay file and explores its scenario again,
printing every history and whether the specification accepts it."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib")); sys.dont_write_bytecode = True
import build, tlc, core
d = json.load(open(sys.argv[1])); name = d["found_by"][0][0]; cfg = name.split("_", 1)[1]
tys = sorted({(o["ty"][0], o["ty"][1:]) for o in d["obj"]})
b = build.Build("re_" + cfg, cfg, tys, extra=["-DH_FEWCONST"] + d.get("flags", []) + sys.argv[2:]).finish()
p = subprocess.run([b.exe, b.tab], input="\n".join(d["scenarios"]) + "\n", stdout=subprocess.PIPE, text=True)
hs = [json.loads(l) for l in p.stdout.splitlines() if not l.startswith('{"stat"')]
pj = [(i, p, pos) for i, h in enumerate(hs) for p, pos in core.project(h)]
pr, _, _ = tlc.trace_check([x[1] for x in pj]); rej = {}
for j, at in pr.items(): i, p, pos = pj[j]; rej[i] = pos[at - 1] if 0 < at <= len(pos) else len(hs[i]["ev"])
for i, h in enumerate(hs):
    if i in rej: print("REJECTED at", rej[i], h["how"]); [print("  ", json.dumps(e)) for e in h["ev"]]
print(len(hs), "histories", len(rej), "rejected")
