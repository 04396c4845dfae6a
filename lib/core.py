"""Shared machinery of the checks: running harnesses, collecting histories and records, deciding them with TLC, reporting."""
import os, sys, json, time, hashlib, subprocess, threading, random, concurrent.futures
import build, tlc
from build import Build, BuildError, VERIF, REPO, NJ, scratch
from scen import *
class HarnessError(Exception): pass
def known_findings():
    r = []
    try:
        for l in open(VERIF + "/known_findings.txt"):
            l = l.strip()
            if l.startswith("finding:"): r.append(json.loads(l[len("finding:"):]))
    except FileNotFoundError: pass
    return r
class Ctx:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed; s.quick = tier == "quick"; s.t0 = time.time(); s.rng = random.Random(seed * 7919 + hash_int(prop))
        s.hist = {}; s.recs = {}; s.states = s.trans = s.traces = 0; s.runs = s.points = 0; s.samples = []; s.viol = []; s.known = []; s.notes = []; s.lock = threading.Lock(); s.scen = {}; s.cut = 0; s.cov = {}; s.broken = 0
        # a check has to give an answer in bounded time on any tree: executions started later than this are skipped (far beyond what the unchanged tree needs)
        s.budget = float(os.environ.get("VERIF_BUDGET", 450 if s.quick else 0)); s.stop = time.monotonic() + s.budget if s.budget else 0; s.skipped = 0
    def log(s, *a): print("[%s %6.1fs]" % (s.prop, time.time() - s.t0), *a, flush=True)
    # ---- concurrent histories
    def types(s, b): return {t.ty: t for t in (Ty(json.loads(l)) for l in build.sh([b.exe, "--types"]).splitlines())}
    def run_scens(s, b, scens, chunk=None):
        """runs scenarios on build b; histories go to s.hist keyed by what the specification sees"""
        if not scens: return
        for x in scens: s.scen[(b.name, x.id)] = x; x.bname = b.name
        n = chunk or max(1, min(12, len(scens) // (NJ * 3) + 1)); parts = [scens[i:i + n] for i in range(0, len(scens), n)]
        with concurrent.futures.ThreadPoolExecutor(NJ) as ex:
            def one(p):
                if s.broken >= 60: return ""      # enough executions got stuck or crashed: decide those
                if s.stop and time.monotonic() > s.stop:
                    with s.lock: s.skipped += len(p)
                    return ""
                out = run_conc(b, p, s.stop); n = out.count(',"st":3,') + out.count(',"st":4,')
                with s.lock: s.broken += n
                return out
            for out in ex.map(one, parts): s.take(b, out)
    def take(s, b, out):
        for l in out.splitlines():
            if l.startswith('{"stat"'):
                d = json.loads(l); s.runs += d["runs"]; s.slow = sorted(getattr(s, "slow", []) + [(d["wall"], d["s"], d["runs"], d["points"])])[-12:]; s.points += d["points"]; s.cut += d["cut"]; continue
            if l.startswith('{"guided"'): s.compare(s.scen[(b.name, json.loads(l)["s"])], json.loads(l)); continue
            h = json.loads(l); k = hkey(h)
            if k not in s.hist: h["src"] = [(b.name, h["s"], h["how"])]; s.hist[k] = h
            elif len(s.hist[k]["src"]) < 4: s.hist[k]["src"].append((b.name, h["s"], h["how"]))
    def compare(s, x, d):
        """a behaviour of LockPool played on the code: does every call return what it returns in the specification?"""
        if not getattr(x, "expect", None): return
        r = {}
        for e in d["r"]: r.setdefault(e["t"], []).append((e["v"], e["f"]))
        c = s.cov.setdefault("LockPool behaviours played", {"same results": 0, "other results": 0}); want = x.expect[d["guided"]]
        got = [r.get(t + 1, [])[:len(w)] for t, w in enumerate(want)]; c["same results" if got == want else "other results"] += 1
        if os.environ.get("VERIF_SHOWDIFF"): print("DIFF" if got != want else "SAME", x.bname, x.id, d["guided"], "want", want, "got", got, x.slices[d["guided"]])
    def decide_traces(s, spec="Trace"):
        hs = list(s.hist.values()); s.log("runs=%d points=%d distinct histories=%d" % (s.runs, s.points, len(hs)))
        sub = {}; own = []   # distinct per-object histories; (history, event positions) of the first history each came from
        for i, h in enumerate(hs):
            for p, pos in project(h):
                k = hkey(p)
                if k not in sub: sub[k] = p; own.append((i, pos))
        ps = list(sub.values()); t1 = time.time()
        if s.skipped or s.stop and time.monotonic() > s.stop:   # see s.budget
            sel = sorted(range(len(ps)), key=lambda j: len(ps[j]["ev"]))[:15000]; ps = [ps[j] for j in sel]; own = [own[j] for j in sel]
            s.log("time budget used up: %d scenarios skipped, deciding the %d shortest histories" % (s.skipped, len(ps))); s.cov["scenarios skipped (time budget)"] = s.skipped
        pr, g, d = tlc.trace_check(ps, spec); s.trans += g; s.states += d; s.traces += len(hs)
        s.cov["distinct per-object histories decided"] = s.cov.get("distinct per-object histories decided", 0) + len(ps)
        bad = {j: at for j, at in pr.items()}; rej = {}
        for j, at in bad.items(): i, pos = own[j]; rej[i] = min(rej.get(i, 1 << 30), pos[at - 1] if 0 < at <= len(pos) else len(hs[i]["ev"]))
        s.log("TLC accepted %d of %d per-object histories (%d states, %.1fs)" % (len(ps) - len(pr), len(ps), d, time.time() - t1))
        if not s.quick or os.environ.get("VERIF_XCHECK"): s.cross_check(ps, pr)
        for i, at in sorted(rej.items(), key=lambda kv: len(hs[kv[0]]["ev"]))[:40]:
            h = hs[i]; s.violation("history rejected by %s at event %d: %s" % (spec, at, json.dumps(h["ev"][at - 1]) if 0 < at <= len(h["ev"]) else "end"), {"kind": "history", "obj": h["obj"], "nt": h["nt"], "ev": h["ev"], "rejected_at": at, "found_by": h["src"], "scenarios": [s.scen[(x[0], x[1])].text() for x in h["src"][:1] if (x[0], x[1]) in s.scen]}, hkey(h), h["src"][0])
        if hs and not s.samples:
            for h in s.rng.sample(hs, min(3, len(hs))): s.samples.append(json.dumps({"obj": h["obj"], "ev": h["ev"], "how": h["src"][0]})[:1500])
        s.hist = {}
    def decide_memory(s, locks):
        """what the library keeps allocated, decided by Memory; locks: build -> size of the lock pool"""
        sub = {}
        for h in s.hist.values():
            if not any(e["k"] == "live" for e in h["ev"]): continue
            ev = []; cur = {}
            for i, e in enumerate(h["ev"]):
                if e["k"] == "c": cur[e["t"]] = e["op"]; w = e["op"] in WAITS and not h["obj"][e["o"] - 1]["nw"]; x = {"k": "c", "t": e["t"], "o": e["o"]}
                elif e["k"] == "r": w = cur[e["t"]] in WAITS; x = {"k": "r", "t": e["t"]}
                else: w = e["k"] in ("live", "exit", "exited", "q"); x = e
                if w: ev.append(x)
            p = {"obj": [], "nt": h["nt"], "ev": ev, "locks": locks(h["src"][0][0])}; k = json.dumps(p)
            if k not in sub: sub[k] = (p, h)
        ps = [x[0] for x in sub.values()]; hs = [x[1] for x in sub.values()]; t1 = time.time(); rej, g, d = tlc.trace_check(ps, "Memory"); s.trans += g; s.states += d
        s.log("Memory accepted %d of %d memory histories (%d states, %.1fs)" % (len(ps) - len(rej), len(ps), d, time.time() - t1)); s.cov["memory histories decided"] = len(ps)
        for i, at in sorted(rej.items(), key=lambda kv: len(hs[kv[0]]["ev"]))[:20]:
            h = hs[i]; s.violation("memory held is not allowed by Memory at event %d: %s" % (at, json.dumps(ps[i]["ev"][at - 1])), {"kind": "history", "spec": "Memory", "obj": h["obj"], "nt": h["nt"], "ev": h["ev"], "projection": ps[i], "rejected_at": at, "found_by": h["src"], "scenarios": [s.scen[(x[0], x[1])].text() for x in h["src"][:1] if (x[0], x[1]) in s.scen]}, "mem" + hkey(h), h["src"][0])
    def show_slow(s): s.log("slowest scenarios:", s.slow)
    def cross_check(s, ps, pr):
        """self test: the reduced search of Trace and the literal one of TraceRef give the same verdicts"""
        small = [j for j, p in enumerate(ps) if p["nt"] <= 5 and len(p["ev"]) <= 24]; bad = [j for j in small if j in pr][:60]; good = [j for j in small if j not in pr]
        pick = bad + s.rng.sample(good, min(len(good), 1500)); mut = []
        for j in s.rng.sample(good, min(len(good), 700)):   # damaged histories, most of them not acceptable
            m = mutate(ps[j], s.rng)
            if m: mut.append(m)
        both = [ps[j] for j in pick] + mut
        a, _, _ = tlc.trace_check(both, "Trace"); b, g, d = tlc.trace_check(both, "TraceRef"); s.trans += g; s.states += d
        diff = [i for i in range(len(both)) if (i in a) != (i in b)]
        s.log("cross-check of Trace against TraceRef: %d histories, %d rejected, %d differ" % (len(both), len(b), len(diff))); s.cov["cross-checked against TraceRef"] = len(both)
        if diff: raise HarnessError("Trace and TraceRef disagree: %s" % json.dumps([(both[i], i in a, i in b) for i in diff[:3]]))
    # ---- sequential records
    def take_records(s, b, args):
        p = subprocess.run([b.exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
        if p.returncode: raise_crash(s, b, p)
        for l in p.stdout.splitlines():
            i = l.rindex(',"ex":'); k = l[:i] + "}"; ex = l[i + 6:-1]
            with s.lock:
                if k not in s.recs: s.recs[k] = (b.name, ex)
        with s.lock:
            m = dict(x.split("=") for x in p.stderr.split()[-3:]) if p.stderr else {}
            s.runs += int(m.get("calls", 0)); s.cov["operation instances"] = s.cov.get("operation instances", 0) + int(m.get("fns", 0))
    def decide_records(s):
        ls = list(s.recs); s.log("calls=%d distinct records=%d" % (s.runs, len(ls)))
        bad, g, d = tlc.seq_check(ls); s.trans += g; s.states += d; s.traces += len(ls)
        for i in bad[:40]: s.violation("operation outcome not allowed by AtomicOps: %s" % ls[i][:300], {"kind": "record", "record": json.loads(ls[i]), "config": s.recs[ls[i]][0], "example": json.loads(s.recs[ls[i]][1])}, ls[i], s.recs[ls[i]])
        for l in s.rng.sample(ls, min(3, len(ls))): s.samples.append(l[:600])
        s.recs = {}
    def decide_reports(s, recs):
        ls = [json.dumps(r, separators=(",", ":")) for r in recs]; bad, g, d = tlc.seq_check(ls, spec="Reports", whole=True); s.trans += g; s.states += d; s.cov["reports decided"] = len(ls)
        s.log("Reports accepted %d of %d" % (len(ls) - len(bad), len(ls)))
        for i in bad[:40]: s.violation("report not allowed by Reports: %s" % ls[i], {"kind": "report", "record": recs[i], "all": [r for r in recs if r["grp"] == recs[i]["grp"]]}, ls[i])
        s.samples += ls[:2]
    # ---- results
    def violation(s, what, data, key, src=None):
        h = hashlib.sha1((s.prop + str(key)).encode()).hexdigest()[:12]
        for f in known_findings():
            if f["property"] == s.prop and f["match"](what, data) if callable(f.get("match")) else (f["property"] == s.prop and f.get("key") == h): s.known.append((f, what)); return
        d = VERIF + "/replays"; os.makedirs(d, exist_ok=True); p = "%s/%s-%s.json" % (d, s.prop, h)
        data = dict(data); data.update({"property": s.prop, "what": what, "tier": s.tier, "seed": s.seed, "key": h})
        with open(p, "w") as f: json.dump(data, f, indent=1)
        s.viol.append((what, p))
    def finish(s, level="model_checking", extra=None):
        for f, w in s.known: print("KNOWN-FINDING: property=%s %s" % (s.prop, f["what"]))
        ev = {"property": s.prop, "tier": s.tier, "seed": s.seed, "level": level, "wall_s": round(time.time() - s.t0, 2), "violations": len(s.viol),
              "coverage": {"states": s.states, "transitions": s.trans, "traces_validated_against_impl": s.traces, "samples": s.samples[:8], "executions_of_the_real_code": s.runs, "scheduling_points": s.points}}
        ev["coverage"].update(s.cov); ev["coverage"].update(extra or {})
        if s.notes: ev["assumptions"] = s.notes
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, s.prop), "w") as f: json.dump(ev, f, indent=1)
        for w, p in s.viol[:8]: print("  " + w[:400])
        if s.viol:
            print("VIOLATION property=%s replay=%s" % (s.prop, s.viol[0][1])); s.log("%d violations" % len(s.viol)); return 1
        if os.environ.get("VERIF_SLOW"): s.show_slow()
        s.log("held on everything explored: %d executions, %d distinct traces, %d states" % (s.runs, s.traces, s.states)); return 0
def hash_int(x): return int(hashlib.sha1(str(x).encode()).hexdigest()[:8], 16)
def hkey(h): return json.dumps([[(o["kd"], o["es"], o["iv"]) for o in h["obj"]], h["nt"], h["ev"]], separators=(",", ":"))
TIMED = ("twait",); WAITS = ("wait", "twait")
def project(h):
    """the history of each object, threads renumbered by first appearance; events that concern everybody are kept everywhere"""
    ev = h["ev"]; cur = {}; own = [None] * len(ev); nx = {}; qpos = None
    for i, e in enumerate(ev):
        if e["k"] == "c": cur[e["t"]] = e["o"]; own[i] = e["o"]
        elif e["k"] == "r": own[i] = cur[e["t"]]
        elif e["k"] == "nap" and (h["obj"][cur[e["t"]] - 1]["nw"] or h["obj"][cur[e["t"]] - 1]["lf"]): own[i] = cur[e["t"]]
    out = []
    for o in sorted({x for x in own if x}) or [1]:
        timed = any(e["k"] == "c" and e["op"] in TIMED and e["o"] == o for e in ev); m = {}; pev = []; pos = []; openw = {}; nap = {}
        def T(t): return m.setdefault(t, len(m) + 1)
        mine = {ev[i]["t"] for i in range(len(ev)) if own[i] == o}
        for i, e in enumerate(ev):
            k = e["k"]
            if own[i] == o:
                e = dict(e); e["t"] = T(e["t"])
                if k == "nap":
                    if nap.get(e["t"]): continue
                    nap[e["t"]] = 1; e["lf"] = h["obj"][o - 1]["lf"]; e["nw"] = h["obj"][o - 1]["nw"]; pev.append(e); pos.append(i + 1); continue
                if k == "c":
                    e["o"] = 1
                    if e["op"] in WAITS: e["x"] = 9999; e["xf"] = 2; openw[e["t"]] = e
                else:
                    nap.pop(e["t"], None); w = openw.pop(e["t"], None)
                    if w is not None: w["x"] = len(pev) + 1; w["xf"] = e["f"]
            elif own[i] or k in ("live", "exit", "exited", "nap"): continue
            elif k == "z":
                if e["t"] not in mine: continue
                e = {"k": "z", "t": T(e["t"])}
            elif k == "t":
                if not timed: continue
                if pev and pev[-1]["k"] == "t" and all(x <= y for x, y in zip(pev[-1]["n"], e["n"])): pev[-1] = e; pos[-1] = i + 1; continue
            elif k == "q":
                if pev and pev[-1]["k"] == "q": continue
            pev.append(e); pos.append(i + 1)
        ob = h["obj"][o - 1]
        out.append(({"obj": [{"kd": ob["kd"], "es": ob["es"], "iv": ob["iv"]}], "nt": max(1, len(m)), "ev": pev}, pos))
    return out
def mutate(p, rng):
    p = json.loads(json.dumps(p)); ev = p["ev"]; k = rng.randrange(4)
    rs = [i for i, e in enumerate(ev) if e["k"] == "r"]
    if not rs: return None
    if k == 0: i = rng.choice(rs); vs = [e["v"] for e in ev if e["k"] == "r" and e["v"]]; ev[i]["v"] = rng.choice(vs) if ev[i]["v"] and vs else ev[i]["v"]; ev[i]["f"] = {0: 1, 1: 0, 2: 2}[ev[i]["f"]] if rng.random() < 0.5 else ev[i]["f"]
    elif k == 1: i = rng.randrange(len(ev)); j = i + rng.choice([-1, 1]); (0 <= j < len(ev) and ev[i].get("t") != ev[j].get("t")) and ev.__setitem__(slice(min(i, j), max(i, j) + 1), [ev[max(i, j)], ev[min(i, j)]])
    elif k == 2: ev.insert(rng.randrange(len(ev) + 1), {"k": "q"})
    else: i = rng.choice(rs); del ev[i:]; ev.append({"k": "q"})
    ow = {}
    for i, e in enumerate(ev):
        if e["k"] == "c" and e["op"] in WAITS: e["x"] = 9999; e["xf"] = 2; ow[e["t"]] = e
        elif e["k"] == "r" and e["t"] in ow: w = ow.pop(e["t"]); w["x"] = i + 1; w["xf"] = e["f"]
    return p
def run_conc(b, scens, stop=0, timeout=800):
    p = subprocess.run([b.exe, b.tab] + (["%.0f" % stop] if stop else []), input="".join(x.text() for x in scens), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if p.returncode: raise HarnessError("harness failed (%d) on %s: %s" % (p.returncode, [x.id for x in scens], p.stderr[-2000:]))
    return p.stdout
def raise_crash(s, b, p):
    m = [l for l in p.stderr.splitlines() if l.startswith("NOOUTCOME ")]
    if p.returncode == 77 and m:
        d = json.loads(m[0][10:]); s.violation("operation has no outcome (signal %d): %s" % (d["sig"], m[0][10:300]), {"kind": "no outcome", "record": d, "config": b.name}, m[0], b.name); return
    raise HarnessError("sequential harness %s failed: %d %s" % (b.name, p.returncode, p.stderr[-2000:]))
