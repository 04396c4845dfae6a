#!/usr/bin/env python3
"""tryseed.py [--tests] ID...: in a scratch copy of /repo, runs the seeded change's demonstration without and with the change (and the repository's tests with it)"""
import sys, subprocess, tempfile, shutil, os, json
V = "/verif"; tests = "--tests" in sys.argv; ids = [x for x in sys.argv[1:] if x[0] != "-"]
for i in ids:
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        subprocess.check_call("git clone -q /repo %s/r" % d, shell=True); s = V + "/seeded/" + i
        def demo():
            try: return subprocess.run(["bash", s + "/demo.sh"], cwd=d + "/r", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
            except subprocess.TimeoutExpired: return None
        a = demo(); subprocess.check_call(["git", "-C", d + "/r", "apply", s + "/patch.diff"]); b = demo()
        print(i, "clean rc=%s patched rc=%s %s" % (a and a.returncode, b and b.returncode, b and b.stdout.strip()[-150:]), flush=True)
    finally: shutil.rmtree(d)
