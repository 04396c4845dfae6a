#!/usr/bin/env python3
"""Nothing is kept between runs: every check builds what it needs in a scratch directory. This only checks the tools and specifications."""
import subprocess, sys, os
here = os.path.dirname(os.path.abspath(__file__))
for t in ("tlc", "g++", "clang++-18", "objdump"):
    if subprocess.run(["which", t], stdout=subprocess.DEVNULL).returncode: sys.exit("missing tool " + t)
for f in sorted(os.listdir(here + "/spec")):
    if f.endswith(".tla"):
        p = subprocess.run(["tla-sany", f], cwd=here + "/spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode or "rror" in p.stdout.replace("Semantic errors", "X") and "*** Errors" in p.stdout: sys.exit(f + "\n" + p.stdout[-3000:])
print("ok")
