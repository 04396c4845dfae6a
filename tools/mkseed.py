#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'file@@old@@new[@@n][;;...]' NEEDS BREAKS: writes seeded/ID/patch.diff and meta.json (demo files are written by hand)"""
import json, os, shutil, subprocess, sys, tempfile
sid, prop, muts, needs, breaks = sys.argv[1:6]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); d = V + "/seeded/" + sid; os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix="mkseed-")
try:
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "--detach", "-q", t + "/w", "HEAD"])
    for m in muts.split(";;"):
        f = m.split("@@"); p = t + "/w/" + f[0]; s = open(p).read(); n = int(f[3]) if len(f) > 3 else 0
        if s.count(f[1]) <= n: sys.exit("not found: " + f[1])
        if len(f) <= 3 and s.count(f[1]) > 1: sys.exit("ambiguous (%d): %s" % (s.count(f[1]), f[1]))
        i = -1
        for _ in range(n + 1): i = s.index(f[1], i + 1)
        open(p, "w").write(s[:i] + f[2] + s[i + len(f[1]):])
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", t + "/w", "diff"], text=True))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print(open(d + "/patch.diff").read())
finally:
    subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"]); shutil.rmtree(t)
