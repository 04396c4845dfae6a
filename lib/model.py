"""Behaviours of spec/LockPool.tla, played on the real code: TLC simulates spec/MCReplay.tla (seeded), a small set of behaviours that
covers everything that was seen to happen is kept, and each becomes a list of slices for the engine (see DESIGN.md)."""
import os, re, json, random
import tlc
from build import scratch, VERIF
MECH = {"emul": ("emul", "emul"), "pool": ("pool", "pool"), "mixed": ("emul", "pool"), "futex": ("futex", "futex")}
def programs(rg, n):
    r = []
    plain = [False]
    W = lambda: ["wait" if plain[0] else rg.choice(["wait", "wait", "twait"]), rg.choice([1, 1, 2]), 0]
    def changer(objs):
        q = []
        for o in objs:
            k = rg.randrange(5)
            if k == 0: q += [["notify_all", o, 0]]
            q += [["store", o, 1 + rg.randrange(2)]]
            q += [[rg.choice(["notify_one", "notify_all"]), o, 0]]
            if k == 1: q += [["notify_one", o, 0]]
            if k == 2: q += [["store", o, 0], ["notify_one", o, 0]]
        return q
    while len(r) < n:
        nt = rg.choice([3, 3, 4]); plain[0] = rg.random() < 0.35; two = rg.random() < 0.45; p = []
        nw = rg.choice([1, 2, 2, 3]) if nt == 4 else rg.choice([1, 2, 2])
        for i in range(nt):
            if i < nw:
                q = [W()]
                if not two: q[0][1] = 1
                if rg.random() < 0.25: q.append(["wait" if plain[0] else rg.choice(["wait", "twait"]), 2 if two else 1, 0])
            elif i == nw: q = changer([1, 2] if two and rg.random() < 0.7 else [1])
            else: q = changer([rg.choice([1, 2]) if two else 1])[:3]
            p.append(q)
        if two and not any(c[1] == 2 for q in p for c in q if c[0] in ("wait", "twait")): continue
        r.append(p)
    return r
def tla(p): return "<<" + ", ".join("<<" + ", ".join('[op |-> "%s", o |-> %d, a |-> %d]' % tuple(c) for c in q) + ">>" for q in p) + ">>"
def behaviours(mech, progs, num, seed):
    """TLC in simulation mode: complete behaviours of MCReplay for these programs"""
    out = []
    for nt in sorted({len(p) for p in progs}):
        m = [p for p in progs if len(p) == nt]; d = scratch(); name = "R%s%d" % (mech, nt)
        with open("%s/%s.tla" % (d, name), "w") as f:
            f.write("---- MODULE %s ----\nEXTENDS MCReplay\nM2 == <<\"%s\", \"%s\">>\nProgs == {%s}\n====\n" % (name, *MECH[mech], ",\n".join(tla(p) for p in m)))
        with open("%s/%s.cfg" % (d, name), "w") as f:
            f.write("SPECIFICATION RSpec\nCONSTANTS\n Threads = {%s}\n Objects = {1, 2}\n Mech <- M2\n Menu <- Progs\n Spins = 10\n Faults = 0\n Deadline = 1\nINVARIANTS Exclusive AtRest Out\nCHECK_DEADLOCK FALSE\n" % ", ".join(str(i + 1) for i in range(nt)))
        rc, o, g, dd = tlc.tlc(name, cfg="%s/%s.cfg" % (d, name), extra=["-simulate", "num=%d" % (num * len(m)), "-depth", "400", "-seed", str(seed)], timeout=800, cwd=d)
        if "violated" in o or "Error:" in o: raise tlc.TlcError("LockPool simulation: " + o[-3000:])
        for l in re.findall(r'^"SCH (.*)"$', o, re.M):
            x = json.loads(l.replace('\\"', '"')); out.append(([[(c["op"], c["o"], c["a"]) for c in q] for q in x["g"]], x["p"], x["f"], x["r"]))
    return out
def features(f):
    k = [json.dumps(x, separators=(",", ":")) for x in f]; return set(zip(k, k[1:]))
def cover(bs, limit):
    """greedily, behaviours that together show every pair of successive events seen in any of them (up to limit behaviours)"""
    fs = [features(b[2]) for b in bs]; seen = set(); picked = []; left = list(range(len(bs)))
    import heapq
    h = [(-len(fs[i]), i) for i in left]; heapq.heapify(h)
    while h and len(picked) < limit:
        n, i = heapq.heappop(h); m = len(fs[i] - seen)
        if m == 0: continue
        if h and -m > h[0][0]: heapq.heappush(h, (-m, i)); continue
        picked.append(i); seen |= fs[i]
    return picked, len(seen), len(set().union(*fs)) if fs else 0
def generate(mech, nprog, num, limit, seed):
    rg = random.Random("%s%d" % (mech, seed)); bs = behaviours(mech, programs(rg, nprog), num, seed)
    pk, got, all_ = cover(bs, limit); r = {}
    for i in pk: g, p, f, o = bs[i]; r.setdefault(json.dumps(g), []).append((p, o))
    return [{"mech": mech, "prog": json.loads(g), "slices": [x[0] for x in v], "out": [x[1] for x in v]} for g, v in sorted(r.items())], {"behaviours simulated": len(bs), "kept": len(pk), "event pairs covered": got, "event pairs seen": all_}
def committed():
    with open(VERIF + "/schedules/lockpool.json") as f: return json.load(f)["entries"]
def check(c, mech, progs, faults=0, spins=1, timeout=1500):
    """TLC over all behaviours of LockPool for these programs: every invariant, and refinement of BoostAtomic"""
    nt = max(len(p) for p in progs); d = scratch(); name = "C%s%d" % (mech, len(progs) * 10 + faults)
    inv = {"poll": ("poll", "poll")}; ms = MECH.get(mech) or inv[mech]
    with open("%s/%s.tla" % (d, name), "w") as f: f.write("---- MODULE %s ----\nEXTENDS MCLockPool\nM2 == <<\"%s\", \"%s\">>\nProgs == {%s}\n====\n" % (name, *ms, ",\n".join(tla(p) for p in progs)))
    with open("%s/%s.cfg" % (d, name), "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS\n Threads = {%s}\n Objects = {1, 2}\n Mech <- M2\n Menu <- Progs\n Spins = %d\n Faults = %d\n Deadline = 1\nINVARIANTS Exclusive HolderOK AtRest ListOK Reclaimed Bounded\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n" % (", ".join(str(i + 1) for i in range(nt)), spins, faults))
    try: rc, o, g, s = tlc.tlc(name, cfg="%s/%s.cfg" % (d, name), workers=8, timeout=timeout, cwd=d, xmx="20g")
    except tlc.TlcError as e:
        if "timeout" in str(e): c.log("LockPool %s: not finished in %d s" % (mech, timeout)); return
        raise
    if rc or "No error has been found" not in o: raise tlc.TlcError("LockPool " + mech + ": " + o[-3000:])
    c.trans += g; c.states += s; c.cov.setdefault("LockPool model checking", []).append({"mechanism": mech, "programs": len(progs), "threads": nt, "faults": faults, "states": s}); c.log("LockPool %s: %d programs, %d states, no error" % (mech, len(progs), s))
def check_all(c, mechs, faults=0, timed=None, n=4):
    if c.quick: return
    rg = random.Random(c.seed * 31 + faults)
    for m in mechs:
        ps = [p for p in programs(rg, 60) if len(p) == 3 and sum(len(q) for q in p) <= 6 and (timed is None or any(x[0] == "twait" for q in p for x in q) == timed)][:n]
        check(c, m, ps, faults)
