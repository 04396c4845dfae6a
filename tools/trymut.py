#!/usr/bin/env python3
"""trymut.py PATCH-or-'s/a/b/ file' Pxx ... : runs quick checks against a scratch copy of /repo with a change applied.
A change is a patch file, or 'file::old::new' (first occurrence; 'file::old::new::n' for the n-th)."""
import sys, os, subprocess, tempfile, shutil
d = tempfile.mkdtemp(prefix="mut-")
try:
    subprocess.run("cp -a /repo/include /repo/src %s/" % d, shell=True, check=True)
    m = sys.argv[1]
    sep = "@@" if "@@" in m else "::"
    if sep in m:
        for one in m.split(";;"):
            f, old, new, *n = one.split(sep); k = int(n[0]) if n else 1; p = d + "/" + f; t = open(p).read(); i = -1
            for _ in range(k): i = t.index(old, i + 1)
            open(p, "w").write(t[:i] + new + t[i + len(old):])
    else: subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + d, os.path.abspath(m)], check=False, cwd="/") if False else subprocess.run(["patch", "-s", "-p1", "-d", d, "-i", os.path.abspath(m)], check=True)
    for p in sys.argv[2:]:
        r = subprocess.run([sys.executable, "/verif/check.py", "--property", p, "--tier", os.environ.get("TIER", "quick")], env=dict(os.environ, VERIF_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print("%s rc=%d" % (p, r.returncode)); print("\n".join("   " + l[:300] for l in r.stdout.splitlines()[-(6 if r.returncode else 1):]))
finally: shutil.rmtree(d)
