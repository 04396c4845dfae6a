"""Regenerates schedules/lockpool.json from spec/LockPool.tla: python3 tools/genslices.py [seed]"""
import os, sys, json, concurrent.futures; sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import model
seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
with concurrent.futures.ThreadPoolExecutor(4) as ex: rs = list(ex.map(lambda m: (m, model.generate(m, 30, 600, 320, seed)), model.MECH))
ents = []; st = {}
for m, (e, s) in rs: ents += e; st[m] = s; print(m, s, sum(len(x["slices"]) for x in e))
os.makedirs(model.VERIF + "/schedules", exist_ok=True)
with open(model.VERIF + "/schedules/lockpool.json", "w") as f: f.write('{"seed": %d, "stats": %s, "entries": [\n%s\n]}\n' % (seed, json.dumps(st), ",\n".join(json.dumps(x, separators=(",", ":")) for x in ents)))
