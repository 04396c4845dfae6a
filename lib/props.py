"""One function per property: what is built, explored and decided."""
import random
from core import *
import litmus, litgen, model
INTS = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "ll", "ull", "ch", "wc", "c16", "i128", "u128"]
ENUMS = ["e8", "e16", "e32", "e64"]; FPS = ["f32", "f64", "f80"]; PTRS = ["pc", "ps", "pi", "p12", "p24", "pv", "pf"]
RAWS = [t for t in build.TYPES if t[0] == "s" and t[1:].isdigit()]; PADS = ["p8", "pd16", "pd12"]; NDC = ["n3", "n8", "n11"]
ALL = list(build.TYPES)
def cross(ws, tys): return [(w, t) for w in ws for t in tys]
def seq_builds(c, specs):
    """specs: (config, wrappers, types, extra flags). Builds all, runs all, decides all records together."""
    bs = [Build("seq%d_%s" % (i, cfg), cfg, cross(ws, tys), main="seq", eng=False, extra=["-DH_NOWAIT"] + list(ex), per=14) for i, (cfg, ws, tys, ex) in enumerate(specs)]
    for b in bs: b.finish()
    c.log("built %d harnesses: %s" % (len(bs), ", ".join("%s(%d types)" % (b.config, len(b.types)) for b in bs)))
    nr = 3 if c.quick else 12
    with concurrent.futures.ThreadPoolExecutor(NJ) as ex:
        list(ex.map(lambda b: c.take_records(b, [c.seed, nr]), bs))
    c.cov["build configurations"] = [b.config for b in bs]
    c.decide_records()
FEW = "-DH_FEWCONST"
def P03(c):
    if c.quick: sp = [("gcc", "AR", INTS, []), ("gcc", "IJ", ["i8", "u16", "i32", "u64", "u128"], [FEW]), ("arch", "A", ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"], []), ("fb", "A", ["i8", "u16", "u32", "i64", "i128"], [FEW]), ("clang", "AR", ["u8", "i16", "i32", "u64", "u128"], [FEW]), ("cx16", "A", ["i128", "u32"], []), ("old", "A", ["i8", "u16", "i32", "u64", "u128"], [FEW]), ("oldax", "A", ["u8", "i16", "u32", "i64", "i128"], [FEW]), ("base", "AR", ["u8", "i64", "i128"], [FEW]), ("gen", "A", ["i8", "u16", "i32", "u64"], [FEW]), ("sync", "A", ["i8", "u16", "i32", "u64", "i128"], [FEW]), ("gcc", "VU", ["u8", "i16", "u32", "i64", "i128"], [FEW]), ("fb", "V", ["i8", "u32"], [FEW])]
    else: sp = [(cfg, "AIRJVU", INTS, []) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "gen", "sync", "fb", "cond", "clangfb")]
    seq_builds(c, sp)
BASEONLY = ["-DH_ONLYWAIT"]
def P04(c):
    tys = INTS + ENUMS + FPS + ["pc", "p24", "pv", "b"] + RAWS + PADS + NDC; O0 = ["-O0"]; O1 = ["-O1"]
    if c.quick: sp = [("gcc", "AR", tys, BASEONLY), ("gcc", "A", ["u8", "i128", "f80", "s3", "s5", "s6", "s7", "s11", "s13", "p8", "pd12", "n3", "b"], BASEONLY + O0), ("gcc", "AR", ["s3", "s7", "s12", "s15", "n11", "p8"], BASEONLY + O1), ("gcc", "IJ", ["i8", "u16", "i32", "u64", "u128", "s3", "s6", "f80", "p8"], BASEONLY), ("arch", "A", ["i8", "u16", "i32", "u64", "s3"], BASEONLY), ("fb", "AR", ["i8", "i64", "s7", "p8", "pd16", "f80", "s33"], BASEONLY), ("clang", "AR", ["u8", "u16", "i32", "u64", "u128", "f80", "f64", "s3", "s17"], BASEONLY), ("cx16", "A", ["i128", "s13", "f80"], BASEONLY), ("old", "A", ["i8", "u16", "i32", "u64", "i128", "s3"], BASEONLY), ("oldax", "A", ["u8", "i32", "u128", "f80"], BASEONLY), ("sync", "A", ["u8", "i16", "u32", "i64", "u128", "s3"], BASEONLY), ("gcc", "V", ["u8", "i32", "u128", "s3", "f64", "p8", "b", "pi"], BASEONLY)]
    else: sp = [(cfg, "AIRJVU", tys, BASEONLY) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "gen", "sync", "fb", "cond", "clangfb")] + [(cfg, "AIR", tys, BASEONLY + o) for cfg in ("gcc", "clang", "fb") for o in (O0, O1)]
    # against threads that overwrite the object: what a failing exchange reports was really there, and a success compared the whole value
    XX = NW + BASEONLY
    if c.quick: cf = [("gcc", "AR", ["i8", "i32", "u64", "i128", "f32", "f80", "s3", "s5", "s12", "s13", "s17", "s33", "p8", "b", "pi"], XX), ("fb", "AR", ["u8", "i32", "i64", "i128", "f64", "s3", "s7", "s17", "s64", "pi", "b", "p8"], XX), ("arch", "A", ["i16", "i64", "i128", "s3"], XX), ("clang", "A", ["i64", "i128", "s17"], XX), ("cx16", "A", ["i128", "s13", "f80"], XX), ("old", "A", ["i8", "i16", "u32", "i64", "i128"], XX), ("oldax", "A", ["i128", "i32"], XX)]
    else: cf = [(cfg, "AIRJ", UNI, XX) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "gen", "sync", "fb", "clangfb")]
    bs = [Build("conc%d_%s" % (i, cfg), cfg, cross(ws, t), extra=ex) for i, (cfg, ws, t, ex) in enumerate(cf)]
    seq_builds(c, sp); k = 1 if c.quick else 8
    for b in bs:
        b.finish(); tt = c.types(b)
        for t in tt.values(): t.ops = [o for o in t.ops if o.name[:3] == "cas" or o.name in ("load", "exchange", "store") and not o.var]
        c.run_scens(b, pair_scens(c, tt, "pair", npart=2 if c.quick else 4, deep=0.2 * k, want=lambda t: t.kd != "flag", only="cas", opt=dict(c1=90 * k)) + mix_scens(c, tt, "mix", 2 * k, rnd=12 * k, pct=8 * k, opt=dict(c1=20 * k), want=lambda t: t.kd != "flag"))
    c.cov["build configurations"] += [b.config for b in bs]; c.decide_traces()
def P05(c):
    if c.quick: sp = [("gcc", "AIRJ", FPS, []), ("arch", "A", FPS, []), ("fb", "AR", FPS, []), ("clang", "AR", FPS, []), ("cx16", "AR", ["f80", "f32"], []), ("oldax", "A", FPS, []), ("base", "AR", FPS, []), ("gen", "A", FPS, []), ("sync", "A", ["f32", "f64"], []), ("gcc", "VU", FPS, [])]
    else: sp = [(cfg, "AIRJVU", FPS, []) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "gen", "sync", "fb", "cond", "clangfb")]
    seq_builds(c, sp)
def P06(c):
    tys = PTRS + ["b", "flag"] + ENUMS
    if c.quick: sp = [("gcc", "AIRJ", tys, []), ("arch", "A", ["pi", "p12", "b", "flag", "e8"], []), ("fb", "AR", ["pi", "p24", "pv", "b", "flag", "e16", "e64"], []), ("clang", "AR", ["ps", "p12", "b", "flag", "e8", "e32"], []), ("base", "AR", ["pc", "p24", "pf", "b", "flag", "e64"], []), ("sync", "A", ["p12", "b", "flag", "e16"], []), ("old", "A", ["pi", "b", "flag", "e32"], []), ("gen", "A", ["pi", "b", "flag"], []), ("gcc", "VU", ["pi", "p12", "pv", "b", "flag", "e8", "e32"], [])]
    else: sp = [(cfg, "AIRJVU", tys, []) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "gen", "sync", "fb", "cond", "clangfb")]
    seq_builds(c, sp)
def single_thread_scens(c, tys, tag, wrap=None):
    """one thread applies every operation instance of a type, on an object at the worst allowed address"""
    r = []
    for t in tys.values():
        ops = [o for o in t.ops if o.name not in ("wait", "twait", "init0")]
        s = Scen("%s_%s" % (tag, t.ty), perms=1, c1=0, maxpoints=400000); (s.tight(t, t.val(0))); s.thread()
        for k, o in enumerate(ops):
            for m in orders(o)[:: (3 if c.quick else 1)]:
                add_call(s, t, o, 1 + k % 5, m)
                if o.name.startswith("cas"): add_call(s, t, o, 1 + k % 5, m, exp=t.val(1 + k % 5))
        w = t.op("wait")
        if w: s.call(w, 1, t.val(0) if t.kd not in ("flag", "bool") else b"\x01"); s.call("load" if t.kd != "flag" else "test", 1)
        r.append(s)
    return r
def P07(c):
    tys = ["u8", "u16", "u32", "i64", "u128", "f80", "pc", "pv", "b"] + RAWS + PADS + NDC
    if c.quick: sp = [("gcc", "AR", tys, BASEONLY), ("gcc", "IJ", ["u8", "s3", "s6", "s8", "p8", "n8", "s13", "s16"], BASEONLY), ("arch", "AR", ["s3", "s4", "s7", "s8", "n3"], BASEONLY), ("fb", "AR", ["u8", "s3", "p8", "pd16", "pd12", "f80", "s33", "n11"], BASEONLY), ("clang", "AR", ["u8", "u128", "f80", "s3", "s5", "s16", "s17"], BASEONLY), ("base", "AR", ["s9", "s12", "s16", "f80", "pd16"], BASEONLY), ("old", "A", ["s3", "s16", "pd16", "p8"], BASEONLY)]
    else: sp = [(cfg, "AIRJ", tys, BASEONLY) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "gen", "sync", "fb", "cond", "clangfb")]
    # every operation under the engine: no byte outside the object is read or written
    if c.quick: cs = [("gcc", "AR", [t for t in ALL if t not in ("u8", "u16", "u32", "u64", "ll", "ull", "ch", "wc", "c16")]), ("fb", "AR", ["i8", "i16", "i64", "s3", "s17", "p8", "f32"]), ("clang", "AR", ["i8", "i32", "i128", "s3", "s6", "s17", "s33"]), ("arch", "AR", ["i8", "i16", "i32", "i64", "s3"])]
    else: cs = [(cfg, "AIRJ", ALL) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "gen", "sync", "fb", "cond", "clangfb")]
    bs = [Build("conc_" + cfg, cfg, cross(ws, t), extra=["-DH_FEWCONST", "-DH_FEWWAITS"]) for cfg, ws, t in cs]
    seq_builds(c, sp)
    for b in bs: b.finish(); tt = c.types(b); c.run_scens(b, single_thread_scens(c, tt, "st"))
    c.decide_traces()
NOOPS = ("wait", "twait", "notify_one", "notify_all", "init0")
def partner(t, k):
    """operations of the other thread: overwrite and look, then put something else"""
    if t.kd == "flag": return [[("tas", None), ("test", None)], [("clear", None), ("test", None)]][k % 2]
    return [[("exchange", 2), ("load", None)], [("store", 2), ("load", None)], [("cas_s", 2), ("load", None)], [("exchange", 2), ("exchange", 0)]][k % 4]
def pair_scens(c, tys, tag, every=1, npart=2, deep=1, opt=None, want=lambda t: True, only=""):
    """each operation instance against an overwriting thread: all single preemptions"""
    r = []
    for t in tys.values():
        if not want(t): continue
        ops = [o for o in t.ops if o.name not in NOOPS]
        for k, o in enumerate(ops):
            if (k + hash_int(t.ty) + c.seed) % every or not o.name.startswith(only): continue
            if t.kd == "pad" and o.name == "mkref": continue
            for q in range(npart):
                mo = orders(o)[(k + q + c.seed) % len(orders(o))]
                oo = dict(perms=2, c1=int(400 * deep), c2=int(4 * deep), rnd=int(4 * deep), seed=c.seed); oo.update(opt or {})
                s = Scen("%s_%s_%s_%d" % (tag, t.ty, o.id.replace(":", "."), q), **oo)
                s.tight(t, t.val(0)); s.thread(); add_call(s, t, o, 1, mo)
                s.thread()
                for nm, v in partner(t, k + q):
                    po = t.op(nm)
                    if nm == "cas_s": s.call(nm, 1, t.val(0), t.val(v), 14)
                    else: s.call(nm, 1, t.val(v) if v is not None else b"", b"", [14, 6, 0][(k + q) % 3] if nm != "load" and nm != "test" and nm != "store" and nm != "clear" else [14, 0][(k + q) % 2])
                r.append(s)
    return r
def mix_scens(c, tys, tag, n, nthr=3, ncalls=2, rnd=60, pct=30, two=0.0, opt=None, want=lambda t: True):
    """random mixes of operations, up to nthr threads, optionally on two objects of different types"""
    r = []; names = sorted(x for x in tys if want(tys[x]))
    for t in (tys[x] for x in names):
        for q in range(n):
            rg = random.Random(hash_int("%s%s%d%d" % (tag, t.ty, q, c.seed)))
            oo = dict(perms=2, c1=60, c2=20, rnd=rnd, pct=pct, seed=c.seed * 1000 + q); oo.update(opt or {})
            s = Scen("%s_%s_%d" % (tag, t.ty, q), **oo); ts = [t]; s.tight(t, t.val(0))
            if rg.random() < two: u = tys[rg.choice(names)]; ts.append(u); s.tight(u, u.val(0))
            for i in range(nthr):
                s.thread()
                for j in range(ncalls):
                    o = rg.randrange(len(ts)); u = ts[o]; op = rg.choice([x for x in u.ops if x.name not in NOOPS and not (u.kd == "pad" and x.name == "mkref")])
                    add_call(s, u, op, rg.randrange(6), rg.choice(orders(op)), o + 1, exp=u.val(rg.randrange(2)))
            r.append(s)
    return r
def conc(c, cfgs, gen, extra=()):
    """cfgs: (config, wrappers, types, flags); gen(build, types) -> scenarios"""
    bs = [Build("conc%d_%s" % (i, x[0]), x[0], cross(x[1], x[2]), extra=list(x[3]) + list(extra), **(x[4] if len(x) > 4 else {})) for i, x in enumerate(cfgs)]
    for b in bs:
        b.finish(); tt = c.types(b); c.build = b; c.run_scens(b, gen(b, tt))
    c.cov["build configurations"] = c.cov.get("build configurations", []) + [b.config for b in bs]; c.cov["types"] = c.cov.get("types", 0) + sum(len(b.types) for b in bs)
NW = ["-DH_NOWAIT"]
UNI = [t for t in ALL if t not in ("ll", "ull", "ch", "c16", "wc")]
def P01(c):
    lf = lambda t: t.lf
    if c.quick: cf = [("gcc", "AR", UNI, NW), ("gcc", "IJ", ["i8", "u32", "i64", "i128", "f64", "s3", "s16", "p24", "b", "flag"], NW + [FEW]), ("cx16", "AR", ["i128", "f80", "s13", "s16", "pd16"], NW), ("old", "A", ["i8", "u16", "i32", "u64", "i128", "b", "flag"], NW + [FEW]), ("oldax", "A", ["u128", "i32", "s13"], NW + [FEW]), ("arch", "AR", ["i8", "u16", "i32", "u64", "i128", "s3", "e8", "pi", "f32"], NW), ("sync", "A", ["i8", "u16", "i32", "u64", "i128", "b", "flag", "f64"], NW + [FEW]), ("gen", "A", ["i8", "i32", "u64", "pi", "f32"], NW + [FEW]), ("clang", "A", ["i8", "i32", "u64", "u128", "f64", "f80", "s5", "s15", "pi"], NW + [FEW])]
    else: cf = [(cfg, "AIRJ", ALL, NW) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "gen", "sync")]
    dp = 1 if c.quick else 8
    conc(c, cf, lambda b, tt: pair_scens(c, tt, "pair", npart=1 if c.quick else 4, deep=dp, want=lf) + mix_scens(c, tt, "mix", 2 if c.quick else 12, rnd=30 * dp, pct=15 * dp, want=lf))
    c.decide_traces()
POOL0 = "-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=0"; POOL1 = "-DBOOST_ATOMIC_LOCK_POOL_SIZE_LOG2=1"
NLF = ["s17", "s33", "s64", "s20", "s31", "s3", "s5", "s13", "f80", "pd12", "n11"]
def P02(c):
    nl = lambda t: not t.lf
    if c.quick: cf = [("gcc", "AR", NLF, NW + [POOL0]), ("fb", "AR", ["i8", "u16", "i32", "u64", "i128", "f32", "f80", "s3", "s16", "s33", "pi", "b", "e16", "flag", "pd16"], NW + [FEW, POOL0]), ("cond", "AR", ["s17", "s33", "s3", "s48"], NW + [POOL1]), ("clangfb", "A", ["i8", "i32", "u64", "i128", "f64", "s7", "s24", "pi"], NW + [FEW, POOL1]), ("fb", "R", ["u8", "i64", "s2", "s8", "s40"], NW + [FEW])]
    else: cf = [("gcc", "AR", RAWS + PADS + NDC + FPS, NW + fl) for fl in ([POOL0], [POOL1], [])] + [(cfg, "AR", ALL, NW + [POOL1] + fl) for cfg in ("fb", "clangfb") for fl in ([],)] + [("cond", "AR", RAWS + PADS, NW + fl) for fl in ([POOL0], [])]
    k = 1 if c.quick else 6
    def gen(b, tt):
        r = pair_scens(c, tt, "pair", npart=1 if c.quick else 3, deep=0.25 if c.quick else 3, every=2 if c.quick else 1, want=nl)
        r += mix_scens(c, tt, "mix", 2 * k, nthr=3, rnd=12 * k, pct=10 * k, two=0.5, want=nl, opt=dict(maxpoints=120000))
        r += mix_scens(c, tt, "many", 1 * k, nthr=5, ncalls=2, rnd=6 * k, pct=8 * k, two=1.0, want=nl, opt=dict(c1=10, maxpoints=200000))
        r += crowd_scens(c, {x: t for x, t in tt.items() if nl(t)}, "crowd", 8 * k, 4, 2, dict(crnd=60 * k)) + crowd_scens(c, {x: t for x, t in tt.items() if nl(t)}, "crowd5", 3 * k, 5, 2, dict(crnd=30 * k, cpct=10 * k))
        return r
    conc(c, cf, gen); c.decide_traces()
# ---- waiting
WT = ["i8", "u16", "i32", "u64", "i128", "s3", "s17", "f32", "f80", "pi", "b", "flag", "e8", "p8"]
def old(t): return t.val(0)
def chg(t, s, o=1, i=1, mo=14):
    """change the value away from (or back to) the first one"""
    if t.kd == "flag": s.call("tas" if i & 1 else "clear", o, mo=mo)
    else: s.call(["store", "exchange"][i % 2] if mo in (0, 4, 14) else "exchange", o, t.val(i), mo=mo)
def wait_scens(c, tys, tag, shapes, opt, c1=120, map2=0, timed=None):
    """timed: None, or a function (rng) -> (variant, clk, sec, nsec): waits become timed waits"""
    r = []
    for t in tys.values():
        if not t.op("wait"): continue
        for sh in shapes:
            rg = random.Random(hash_int("%s%s%s%d" % (tag, t.ty, sh, c.seed)))
            s = Scen("%s_%s_%s" % (tag, t.ty, sh), **dict(dict(perms=2, c1=c1, c2=10, rnd=10, pct=10, seed=c.seed), **opt)); s.tight(t, old(t), map2=map2)
            def W(v=None, o=1, mo=None):
                mo = rg.choice([14, 2, 0]) if mo is None else mo
                if timed is None: s.call("wait", o, v if v is not None else old(t), mo=mo)
                else:
                    var, clk, sec, ns = timed(rg); s.call("twait:" + var, o, v if v is not None else old(t), mo=mo, clk=clk, sec=sec, nsec=ns)
            TH = s.thread
            if sh == "s1": TH(); W(); TH(); chg(t, s); s.call("notify_one")
            elif sh == "sa": TH(); W(); TH(); chg(t, s); s.call("notify_all")
            elif sh == "rmw": TH(); W(); TH(); (s.call("exchange", 1, t.val(1)) if t.kd != "flag" else s.call("tas")); s.call("notify_one")
            elif sh == "relaxed": TH(); W(); TH(); chg(t, s, mo=0); s.call("notify_one")
            elif sh == "2wa": TH(); W(); TH(); W(); TH(); chg(t, s); s.call("notify_all")
            elif sh == "2w1x2": TH(); W(); TH(); W(); TH(); chg(t, s); s.call("notify_one"); s.call("notify_one")
            elif sh == "2w2n": TH(); W(); TH(); W(); TH(); chg(t, s); s.call("notify_one"); TH(); s.call("notify_one")
            elif sh == "sep": TH(); W(); TH(); chg(t, s); TH(); s.call("notify_one"); s.call("notify_all")
            elif sh == "early": TH(); W(); TH(); s.call("notify_all"); chg(t, s); TH(); s.call("notify_one")
            elif sh == "aba": TH(); W(); TH(); chg(t, s); s.call("notify_one"); chg(t, s, i=0); s.call("notify_one"); chg(t, s, i=1); s.call("notify_all")
            elif sh == "nochange": TH(); W(); TH(); s.call("notify_all"); s.call("notify_one"); chg(t, s, i=0); s.call("notify_one")
            elif sh == "differs": TH(); W(t.val(1)); W(); TH(); chg(t, s); s.call("notify_all")
            elif sh == "pp": TH(); W(t.val(0)); chg(t, s, i=0); s.call("notify_one"); TH(); chg(t, s, i=1); s.call("notify_one"); W(t.val(1))
            elif sh == "3w": TH(); W(); TH(); W(); TH(); W(); TH(); chg(t, s); s.call("notify_one"); s.call("notify_all")
            elif sh == "2w2a": TH(); W(); TH(); W(); TH(); chg(t, s); s.call("notify_all"); TH(); s.call("notify_all")
            elif sh == "revert": TH(); W(); TH(); chg(t, s); chg(t, s, i=0); s.call("notify_all")
            elif sh == "alone": TH(); W()
            else: raise KeyError(sh)
            r.append(s)
    return r
def multi_scens(c, tys, tag, n, nobj, nwait, opt, timed=0.0, nthr=None):
    """many objects (of several types) waited on at the same time; each gets changed and notified exactly as needed"""
    r = []; names = [x for x in sorted(tys) if tys[x].op("wait")]
    for q in range(n):
        rg = random.Random(hash_int("%s%d%d" % (tag, q, c.seed))); no = nobj(rg); nw = nwait(rg)
        s = Scen("%s_%d" % (tag, q), **dict(dict(perms=1, c1=0, seed=c.seed + q), **opt)); ts = []
        for i in range(no): t = tys[rg.choice(names)]; ts.append(t); s.tight(t, t.val(0))
        wo = [rg.randrange(no) for _ in range(nw)]
        for o in wo:
            s.thread(); t = ts[o]
            if rg.random() < timed: s.call("twait:wu_mono", o + 1, t.val(0), clk=MONO, sec=NOW[MONO][0] + rg.choice([0, 1, 5]), nsec=rg.choice([0, 500000000]))
            else: s.call("wait", o + 1, t.val(0))
            if rg.random() < 0.3: o2 = rg.choice(wo); s.call("wait", o2 + 1, ts[o2].val(0))
        used = sorted(set(wo)); rg.shuffle(used); nn = rg.choice([1, 1, 2])
        for k in range(nn):
            s.thread()
            for o in used[k::nn]:
                chg(ts[o], s, o + 1)
                if wo.count(o) == 1 and rg.random() < 0.6: s.call("notify_one", o + 1)
                elif rg.random() < 0.3:
                    for _ in range(wo.count(o)): s.call("notify_one", o + 1)
                else: s.call("notify_all", o + 1)
        r.append(s)
    return r
def lineup_scens(c, tys, tag, sizes, opt, map2=0):
    """n waiters asleep on n objects that share one lock; then each object is changed and notified, in different orders, alone or in pairs of waits"""
    r = []; names = [x for x in sorted(tys) if tys[x].op("wait") and not (tys[x].lf and tys[x].size == 4)] or [x for x in sorted(tys) if tys[x].op("wait")]
    for n in sizes:
        for q, order in enumerate(("fwd", "bwd", "rnd")):
            rg = random.Random(hash_int("%s%d%s%d" % (tag, n, order, c.seed)))
            s = Scen("%s_%d_%s" % (tag, n, order), **dict(dict(perms=1, c1=0, c2=0, rnd=0, pct=0, seed=c.seed, maxpoints=800000), **opt)); ts = []
            for i in range(n): t = tys[names[(i + q) % len(names)]]; ts.append(t); s.obj(t, t.val(0), align=64, off=64, map2=map2) if map2 else s.tight(t, t.val(0))
            for i in range(n):
                s.thread(); s.call("wait", i + 1, ts[i].val(0))
                if (i + q) % 4 == 1: j = rg.randrange(n); s.call("wait", j + 1, ts[j].val(0))   # an object that may still be waited on, or already changed
            us = list(range(n)); (us.reverse() if order == "bwd" else rg.shuffle(us) if order == "rnd" else None)
            s.thread()
            for i in us: chg(ts[i], s, i + 1); s.call("notify_one", i + 1); s.call("notify_all" if i % 3 else "notify_one", i + 1)
            r.append(s)
    return r
def crowd_scens(c, tys, tag, n, nthr, ncalls, opt):
    """several threads after one lock, switched only where they meet (read-modify-writes and system calls): deep histories of the lock itself.
    Locked stores and loads for objects without a lock-free implementation, waits and notifications for the others."""
    r = []; names = sorted(x for x in tys if not tys[x].lf or tys[x].op("wait") and tys[x].size != 4)
    if not names: return r
    for q in range(n):
        rg = random.Random(hash_int("%s%d%d" % (tag, q, c.seed))); t = tys[names[q % len(names)]]; no = rg.choice([1, 1, 2])
        s = Scen("%s_%s_%d" % (tag, t.ty, q), **dict(dict(perms=1, c1=0, c2=0, rnd=0, pct=0, seed=c.seed + q, maxpoints=200000), **opt))
        for _ in range(no): s.tight(t, t.val(0))
        waits = t.op("wait") is not None and (t.lf or rg.random() < 0.35)
        for i in range(nthr):
            s.thread(); o = 1 + i % no
            if waits and i < nthr // 2: s.call("wait", o, old(t)); continue
            for j in range(ncalls):
                if waits: (chg(t, s, o, 1 + i + j) if j == 0 else None); s.call("notify_all" if j else rg.choice(["notify_one", "notify_all"]), o)
                elif t.kd == "flag": s.call("clear" if (i + j) % 2 else "tas", o)
                else: s.call("store", o, t.val(1 + i + j), mo=14)
        r.append(s)
    return r
def model_scens(c, tys, tag, opt=None, timed=None, ntypes=1):
    """behaviours of the LockPool specification, slice by slice (schedules/lockpool.json; the thorough tier simulates new ones)"""
    ents = model.committed(); r = []
    if not c.quick:
        if not hasattr(c, "model_ents"):
            c.model_ents = []; st = {}
            with concurrent.futures.ThreadPoolExecutor(4) as ex:
                for m, (e, k) in zip(model.MECH, ex.map(lambda m: model.generate(m, 30, 700, 700, c.seed + 1000), model.MECH)): c.model_ents += e; st[m] = k
            c.cov["LockPool behaviours simulated"] = st; c.log("LockPool behaviours:", st)
        ents = ents + c.model_ents
    ok = lambda t: t.op("wait") and t.kd not in ("flag", "bool", "pad")
    cand = {"emul": [tys[x] for x in sorted(tys) if ok(tys[x]) and not tys[x].lf], "pool": [tys[x] for x in sorted(tys) if ok(tys[x]) and tys[x].lf and not tys[x].nw and x[0] in "AR"], "futex": [tys[x] for x in sorted(tys) if ok(tys[x]) and tys[x].nw]}
    for n, e in enumerate(ents):
        ms = model.MECH[e["mech"]]; hast = any(q[0] == "twait" for p in e["prog"] for q in p)
        if timed is not None and hast != timed or not all(cand[m] for m in ms): continue
        if len({q[1] for p in e["prog"] for q in p}) > 1 and POOL0 not in c.build.extra and e["mech"] != "futex": continue   # the specification has one lock
        for k in range(ntypes):
            s = Scen("%s_%s_%d_%d" % (tag, e["mech"], n, k), **dict(dict(perms=1, c1=0, c2=0, rnd=0, pct=0, seed=c.seed, maxpoints=200000, tsec=NOW[MONO][0] + 1, tnsec=NOW[MONO][1] // 2), **(opt or {}))); ts = []
            for j, m in enumerate(ms): t = cand[m][(n + k + j + c.seed) % len(cand[m])]; ts.append(t); s.tight(t, t.val(0))
            for p in e["prog"]:
                s.thread()
                for op, o, a in p:
                    t = ts[o - 1]
                    if op == "twait": s.call("twait:wu_mono", o, t.val(a), clk=MONO, sec=NOW[MONO][0] + 1, nsec=NOW[MONO][1] // 2)
                    elif op == "wait": s.call("wait", o, t.val(a), mo=[14, 2, 0][(n + k) % 3])
                    elif op == "store": s.call("store", o, t.val(a), mo=14)
                    else: s.call(op, o)
            s.slices = e["slices"]; s.expect = None if opt or "cond" in c.build.config or any(t.size == 16 or t.kd == "fp" for t in ts) else [[[(list(t.val(v[0])) if v else [], f) if op in ("wait", "twait") else ([], 2) for (op, ob, _), (v, f) in zip(p, q) for t in [ts[ob - 1]]] for p, q in zip(e["prog"], o)] for o in e["out"]]; r.append(s)
    return r
WX = [FEW, "-DH_ONLYWAIT", "-DH_FEWWAITS"]
SHAPES = ["s1", "sa", "rmw", "relaxed", "2wa", "2w1x2", "2w2n", "sep", "pp", "3w"]
def P08(c):
    if c.quick: cf = [("gcc", "AR", WT, WX + [POOL0]), ("gcc", "IJ", ["i8", "i32", "u64", "i128"], WX), ("fb", "AR", ["i8", "i32", "i64", "s17", "flag"], WX), ("cond", "AR", ["i8", "i32", "u64", "s3"], WX + [POOL0]), ("clang", "A", ["i8", "i32", "i128", "s17", "flag"], WX), ("arch", "A", ["i16", "i32", "i64"], WX)]
    else: cf = [(cfg, "AIRJ", WT + ["u8", "i16", "u32", "i64", "f64", "pc", "s5", "s8", "s33", "e32", "e64", "n11"], WX) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "fb", "cond", "condcw", "clangfb")] + [(cfg, "AR", WT + ["s3"], WX + [POOL0]) for cfg in ("gcc", "fb", "cond", "condcw")]
    full = SHAPES
    def gen(b, tt):
        k = 1 if c.quick else 10
        return wait_scens(c, tt, "w", full, dict(rnd=8 * k, pct=8 * k, c2=8 * k, crnd=6 * k), c1=(60 if c.quick else 1500)) + model_scens(c, tt, "spec", timed=False)
    model.check_all(c, ["emul", "pool", "mixed", "futex", "poll"], timed=False)
    conc(c, cf, gen); c.decide_traces()
def P09(c):
    if c.quick: cf = [("gcc", "AR", WT, WX), ("gcc", "IJ", ["i8", "i32", "u64"], WX), ("fb", "AR", ["i8", "i32", "i64", "s17", "p8", "flag"], WX), ("cond", "A", ["i8", "i32", "s3"], WX)]
    else: cf = [(cfg, "AIRJ", WT + ["u8", "i16", "u32", "i64", "f64", "pc", "s5", "s8", "s33", "e32", "e64", "n11"], WX) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "fb", "cond", "condcw", "clangfb")]
    def gen(b, tt):
        k = 1 if c.quick else 10
        return wait_scens(c, tt, "v", ["aba", "nochange", "differs", "early", "revert", "pp"], dict(rnd=10 * k, pct=8 * k, c2=8 * k, pspur=0.05), c1=(50 if c.quick else 1500))
    conc(c, cf, gen); c.decide_traces()
MX = [FEW, "-DH_ONLYWAIT", "-DH_FEWWAITS"]
MT = ["i8", "u16", "i32", "u64", "i128", "s3", "s17", "f80", "b", "flag"]
def P10(c):
    k = 1 if c.quick else 12
    if c.quick: cf = [("gcc", "AR", MT, WX + [POOL0]), ("fb", "AR", ["i8", "i32", "i64", "s17"], WX + [POOL0]), ("cond", "AR", ["i8", "i32", "u64", "s3"], WX + [POOL0]), ("gcc", "A", ["i8", "u64", "i128"], WX + [POOL1])]
    else: cf = [(cfg, "AR", MT + ["e8", "pi", "f32", "s33"], WX + fl) for cfg in ("gcc", "fb", "cond", "condcw", "clang") for fl in ([POOL0], [POOL1], [])]
    # the three ways lock_pool.cpp can look up an address (chosen at run time by the processor in the "base" configuration)
    LT = ["i8", "u16", "i64", "s3", "s17"]
    ln = [("gcc", "A", LT, WX + [POOL0]), ("base", "A", LT, WX + [POOL0]), ("base", "A", LT, WX + [POOL0], dict(simd=("SSE2",))), ("base", "A", LT, WX + [POOL0], dict(simd=()))]
    if not c.quick: ln += [(cfg, "AR", LT, WX + [POOL0]) for cfg in ("fb", "clang", "clangfb", "cond")] + [("base", "R", LT, WX + [POOL0], dict(simd=x)) for x in (("SSE2",), ())]
    def line(b, tt): return lineup_scens(c, tt, "lfar", (2, 11, 12, 13, 15, 16, 17, 20, 22, 25, 28, 33), {}, map2=2) + lineup_scens(c, tt, "line", range(1, 41) if not c.quick else list(range(1, 25)) + [28, 31, 32, 33, 40], {}) + lineup_scens(c, tt, "lrnd", (5, 9, 13, 19, 26) if c.quick else range(3, 40), dict(rnd=2 * k, pct=2 * k))
    conc(c, ln, line)
    def gen(b, tt):
        r = multi_scens(c, tt, "m", 40 * k, lambda g: g.choice([2, 3, 3, 4]), lambda g: g.choice([2, 3, 4, 5]), dict(rnd=10, pct=14, maxpoints=200000))
        r += multi_scens(c, tt, "big", 10 * k, lambda g: g.choice([9, 12, 17, 20, 35]), lambda g: g.choice([10, 18, 24, 36, 40]), dict(rnd=3, pct=5, maxpoints=800000))
        r += multi_scens(c, tt, "tm", 14 * k, lambda g: g.choice([2, 3, 4]), lambda g: g.choice([3, 4, 5]), dict(rnd=8, pct=10, ptime=0.01, maxpoints=200000), timed=0.6)
        r += wait_scens(c, tt, "w", ["2w1x2", "3w", "2w2a"], dict(rnd=6, pct=6, c2=6, crnd=10), c1=20)
        r += model_scens(c, tt, "spec", ntypes=1 if c.quick else 3) + crowd_scens(c, tt, "crowd", 8 * k, 4, 2, dict(crnd=40 * k)) + crowd_scens(c, tt, "crowd6", 4 * k, 6, 1, dict(crnd=30 * k))
        return r
    model.check_all(c, ["emul", "pool", "mixed"], n=6)
    conc(c, cf, gen); c.decide_traces()
def deadlines(kind):
    """timed wait variants and deadlines (virtual time); kind: near, past, far"""
    def f(rg):
        v = rg.choice(TV)
        return timed_args(v, kind, rg)
    return f
VCLK = {"wu_steady": MONO, "wu_system": REAL, "wu_plain": MONO, "wu_pico": MONO, "wu_zero": MONO, "wu_half": MONO, "wu_mono": MONO, "wu_real": REAL, "wu_boot": BOOT, "wu_sec": REAL}
UNIT = {"wu_half": 2, "wu_sec": 10**9, "wf_us": 1000, "wf_s": 10**9}
def timed_args(v, kind, rg):
    u = UNIT.get(v, 1)
    if v.startswith("wf"):
        if kind == "max": d = (2**63 - 1) // u * u - rg.choice([0, 0, 10**9]); return v, 0, d // 10**9, d % 10**9   # only for waits that get notified
        d = {"near": rg.choice([1, 999999999, 1000000000, 2500000001, 60 * 10**9, 1500]), "past": rg.choice([0, 0, -1, -10**9, -3600 * 10**9 - 1]), "far": rg.choice([10**15, 5 * 10**18, 9 * 10**18, 86400 * 365 * 10**9])}[kind]
        d = d // u * u
        if kind == "near" and d == 0: d = u
        return v, 0, d // 10**9, d % 10**9
    k = VCLK[v]; now = NOW[k][0] * 10**9 + NOW[k][1]
    if kind == "near": d = now + rg.choice([1, 1000, 999999999, 10**9, 10**9 + 1007, 2 * 10**9 + 1, 5 * 10**9 + 2500, 61 * 10**9])
    elif kind == "past": d = rg.choice([now, now - 1, now - 10**9, 0, -1, -10**9, -5 * 10**9 - 500000000, 1] + [-2**63] * (3 if v in ("wu_steady", "wu_plain", "wu_system", "wu_mono", "wu_real", "wu_boot", "wu_half") else 0))
    else: d = rg.choice([2**63 - 1, 2**63 - 1 - 10**9, now + 10**17, 2**62, 4 * 10**18])
    if d >= 0 or True: d = d // u * u
    if kind == "near" and d <= now: d += u
    if v == "wu_pico": d = min(d, 9 * 10**15)
    if v == "wu_zero" and kind == "far": d = rg.choice([2**63 - 1, 2**63 - 1, 8 * 10**18])
    return v, k, d // 10**9, d % 10**9
TV = ["wu_steady", "wu_system", "wu_plain", "wu_pico", "wu_zero", "wu_half", "wu_mono", "wu_real", "wu_boot", "wu_sec", "wf_ns", "wf_us", "wf_s"]
RELATIVE = ("wu_steady", "wu_plain", "wu_pico", "wu_zero", "wu_half", "wu_boot")   # clocks whose waits are converted to a relative time
def relative(v, config): return v.startswith("wf") or v in RELATIVE or (config in ("cond",) and v != "wu_mono")
TX = [FEW, "-DH_ONLYWAIT"]
def each_timed(c, config, tys, tag, shapes, kinds, opt, c1, every=1):
    r = []; n = 0
    for v in TV:
        for kind in kinds:
            if opt.get("ptime", 0) and relative(v, config): continue   # a relative wait counts from the moment it starts: time must not jump within the call
            for x in tys.values():
                if not x.op("twait:" + v): continue
                n += 1
                if every > 1 and (n + c.seed) % every: continue
                r += wait_scens(c, {x.ty: x}, "%s_%s_%s" % (tag, v, kind), shapes if not callable(shapes) else shapes(n), opt, c1=c1, timed=lambda rg, v=v, kind=kind: timed_args(v, kind, rg))
    return r
TT = ["i8", "i32", "u64", "i128", "s17", "flag"]
def P11(c):
    k = 1 if c.quick else 8
    if c.quick: cf = [("gcc", "AR", TT, TX), ("gcc", "I", ["i8", "i32", "u64"], TX), ("fb", "A", ["i32", "s17"], TX), ("cond", "A", ["i8", "i32", "s3"], TX), ("condcw", "A", ["i32", "u64"], TX), ("base", "A", ["i8", "i32"], TX), ("clang", "A", ["i16", "i32"], TX)]
    else: cf = [(cfg, "AIRJ", TT + ["u16", "f32", "f80", "pi", "s3", "e8"], TX) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "fb", "cond", "condcw", "clangfb")] + [(cfg, "AR", TT + ["s3"], TX + [POOL0]) for cfg in ("gcc", "fb", "cond", "condcw")]
    def gen(b, tt):
        ev = 1 if not c.quick else 1
        r = each_timed(c, b.config, tt, "al", ["alone"], ["near", "past", "far"], dict(perms=1, c2=0, rnd=1, pct=0), 0, ev)
        r += each_timed(c, b.config, tt, "nc", lambda n: [["nochange", "revert", "differs"][n % 3]], ["near"], dict(perms=1, c2=4 * k, rnd=6 * k, pct=6 * k), 10 * k, 2 if c.quick else 1)
        r += each_timed(c, b.config, tt, "pt", lambda n: [["s1", "sa", "2wa", "nochange", "aba"][n % 5]], ["near"], dict(perms=1, c2=2 * k, rnd=10 * k, pct=8 * k, ptime=0.03), 8 * k, 2 if c.quick else 1)
        r += each_timed(c, b.config, tt, "in", lambda n: [["alone", "nochange"][n % 2]], ["near"], dict(perms=1, c2=0, rnd=6 * k, pct=0, pintr=0.4, pspur=0.1), 0, 2 if c.quick else 1)
        fx = {x: t for x, t in tt.items() if t.size == 4 and t.nw}
        r += each_timed(c, b.config, fx, "ny", lambda n: [["alone", "nochange"], ["alone", "revert"], ["alone", "2wa"]][n % 3], ["near", "past"], dict(perms=1, c2=0, rnd=4 * k, pct=2 * k, nosys=1, pspur=0.1), 6 * k)   # no absolute futex waits
        if b.config not in ("cond", "condcw"):  # the clock is stepped while waiting: needs the native timed primitive of that clock
            r += each_timed(c, b.config, {x: tt[x] for x in tt if x[0] in "AR"}, "st", ["alone"], ["near"], dict(perms=1, c2=0, rnd=10 * k, pct=0, step=7, psw=0.5), 0, 2 if c.quick else 1)
        return r
    conc(c, cf, gen); c.decide_traces()
def P12(c):
    k = 1 if c.quick else 10
    if c.quick: cf = [("gcc", "AR", TT, TX + [POOL0]), ("gcc", "I", ["i8", "i32"], TX), ("fb", "A", ["i32", "s17"], TX + [POOL0]), ("cond", "A", ["i8", "i32", "s3"], TX + [POOL0]), ("condcw", "A", ["u64"], TX), ("base", "A", ["i8", "i32"], TX)]
    else: cf = [(cfg, "AIRJ", TT + ["u16", "f32", "f80", "pi", "s3", "e8"], TX) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "fb", "cond", "condcw", "clangfb")] + [(cfg, "AR", TT + ["s3"], TX + [POOL0]) for cfg in ("gcc", "fb", "cond", "condcw")]
    def gen(b, tt):
        r = each_timed(c, b.config, tt, "s", lambda n: [["s1", "sa", "relaxed", "rmw"][n % 4]], ["near"], dict(perms=2, c2=3 * k, rnd=3 * k, pct=4 * k), 40 * k, 1)
        r += each_timed(c, b.config, tt, "n", lambda n: [["2wa", "2w1x2", "pp", "sep", "2w2n", "3w"][n % 6]], ["near"], dict(perms=1, c2=4 * k, rnd=6 * k, pct=8 * k), 15 * k, 2 if c.quick else 1)
        r += each_timed(c, b.config, tt, "to", lambda n: [["2wa", "2w1x2", "3w"][n % 3]], ["near"], dict(perms=1, c2=0, rnd=10 * k, pct=8 * k, ptime=0.02), 0, 2 if c.quick else 1)
        r += multi_scens(c, tt, "tm", 16 * k, lambda g: g.choice([1, 2, 3]), lambda g: g.choice([2, 3, 4]), dict(rnd=8, pct=10, ptime=0.01, maxpoints=200000), timed=0.6)
        r += each_timed(c, b.config, {x: t for x, t in tt.items() if t.size == 4 and t.nw}, "ny", lambda n: [["s1", "2wa", "2w1x2", "pp"][n % 4]], ["near"], dict(perms=1, c2=2 * k, rnd=4 * k, pct=4 * k, nosys=1), 12 * k, 2 if c.quick else 1)
        for v in ("wf_ns", "wf_us", "wf_s"):
            for x in tt.values():
                if x.op("twait:" + v): r += wait_scens(c, {x.ty: x}, "mx_" + v, ["s1", "2wa"] if v != "wf_us" else ["sa"], dict(perms=1, c2=2 * k, rnd=2 * k, pct=2 * k), c1=4 * k, timed=lambda rg, v=v: timed_args(v, "max", rg))
        return r + model_scens(c, tt, "spec", timed=True)
    model.check_all(c, ["emul", "pool", "mixed", "futex", "poll"], timed=True)
    conc(c, cf, gen); c.decide_traces()
def failing(scens, rg, own=True):
    """the same scenarios with allocations failing from some point on: permanently, or only the n-th"""
    for s in scens:
        n, cnt = rg.choice([(1, 1), (1, 1000000), (2, 1), (2, 1000000), (3, 1), (3, 2), (4, 1)])
        s.expect = None; s.id += "_f%d.%d" % (n, cnt); call = "call @failalloc 0 14 14 - - 0 %d %d 1" % (n, cnt)
        if own and rg.random() < 0.5: s.thr.append((0, 0, [call]))
        else: s.thr[0][2].insert(0, call)
    return scens
def P13(c):
    k = 1 if c.quick else 10
    if c.quick: cf = [("gcc", "AR", ["i8", "i32", "u64", "s17", "flag"], TX + [POOL0]), ("gcc", "I", ["i8", "i32"], TX), ("fb", "AR", ["i8", "i32", "s17"], TX + [POOL0]), ("cond", "A", ["i32", "u64", "s3"], TX + [POOL0]), ("condcw", "A", ["i32"], TX), ("clangfb", "A", ["i64"], TX)]
    else: cf = [(cfg, "AIRJ", TT + ["u16", "f32", "f80", "pi", "s3", "e8", "s33"], TX + fl) for cfg in ("gcc", "fb", "cond", "condcw", "clang", "clangfb", "base") for fl in ([POOL0], [])]
    def gen(b, tt):
        rg = random.Random(c.seed); intr = dict(pintr=0.4, pspur=0.1, perms=2, c2=4 * k, rnd=8 * k, pct=8 * k); fl = dict(perms=2, c2=4 * k, rnd=8 * k, pct=8 * k)
        W = lambda names: {x: tt[x] for x in tt if not names or x[1:] in names}
        r = wait_scens(c, tt, "in", ["s1", "2wa", "2w1x2", "pp", "nochange", "aba"], intr, c1=10 * k)
        r += failing(wait_scens(c, tt, "fa", ["s1", "2wa", "2w1x2", "3w", "pp", "nochange"], fl, c1=10 * k), rg)
        r += each_timed(c, b.config, tt, "ti", lambda n: [["s1", "alone", "2wa", "nochange"][n % 4]], ["near", "past"], dict(perms=1, c2=0, rnd=4 * k, pct=4 * k, pintr=0.4, pspur=0.1), 0, 3 if c.quick else 1)
        r += failing(each_timed(c, b.config, tt, "tf", lambda n: [["s1", "alone", "2wa", "nochange", "alone"][n % 5]], ["near", "past"], dict(perms=1, c2=0, rnd=4 * k, pct=4 * k), 3 * k, 3 if c.quick else 1), rg)
        r += multi_scens(c, tt, "mi", 12 * k, lambda g: g.choice([2, 3, 9]), lambda g: g.choice([3, 4, 10]), dict(rnd=6, pct=6, maxpoints=300000, pintr=0.3, pspur=0.05))
        r += failing(multi_scens(c, tt, "mf", 14 * k, lambda g: g.choice([2, 3, 4, 9]), lambda g: g.choice([3, 4, 5, 10]), dict(rnd=6, pct=6, maxpoints=300000)), rg)
        r += model_scens(c, tt, "spec", dict(pintr=0.15)) + failing(model_scens(c, tt, "spf"), rg)
        r += crowd_scens(c, tt, "crowd", 6 * k, 4, 2, dict(crnd=40 * k, pintr=0.05)) + failing(crowd_scens(c, tt, "crowdf", 4 * k, 4, 2, dict(crnd=20 * k)), rg)
        r += mix_scens(c, tt, "lk", 2 * k, nthr=4, ncalls=3, rnd=8 * k, pct=8 * k, two=0.7, want=lambda t: not t.lf, opt=dict(c1=20 * k, pintr=0.5, pspur=0.1, maxpoints=200000))
        return r
    model.check_all(c, ["emul", "pool", "mixed", "futex"], faults=1, n=2)
    conc(c, cf, gen); c.decide_traces()
def ipcify(scens, rg):
    """puts every object in shared memory and spreads the threads over virtual processes and over two mappings of it"""
    for n, s in enumerate(scens):
        s.blks = [(a, b, 1) for a, b, _ in s.blks]; k = n % 4
        pv = [lambda i: (i % 2, i % 2), lambda i: (0, i % 2), lambda i: (i % 2, (i + 1) // 2 % 2), lambda i: (i % 3, rg.randrange(2))][k]
        s.thr = [pv(i) + (cs,) for i, (_, _, cs) in enumerate(s.thr)]; s.id += "_x%d" % k
    return scens
def P14(c):
    k = 1 if c.quick else 10; it = ["i8", "u16", "i32", "u64", "i128", "f32", "f64", "pi", "b", "e16", "s3", "s4", "flag"]
    # waiting and notifying
    if c.quick: cf = [("gcc", "IJ", it, TX), ("clang", "IJ", ["i32", "i8", "flag"], TX), ("cond", "IJ", ["i32", "u64", "flag"], TX)]
    else: cf = [(cfg, "IJ", it + ["f80", "p8", "pd16", "s8", "s16", "n8", "u32", "e32"], TX) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "cond", "condcw")]
    def gen(b, tt):
        rg = random.Random(c.seed)
        r = wait_scens(c, tt, "w", ["s1", "sa", "2wa", "2w1x2", "sep", "pp", "3w", "aba", "nochange"], dict(rnd=5 * k, pct=5 * k, c2=3 * k), c1=12 * k)
        r += each_timed(c, b.config, tt, "t", lambda n: [["s1", "alone", "2wa", "nochange", "2w1x2"][n % 5]], ["near"], dict(perms=1, c2=2 * k, rnd=4 * k, pct=4 * k), 8 * k, 2 if c.quick else 1)
        r += multi_scens(c, tt, "m", 16 * k, lambda g: g.choice([2, 3, 5]), lambda g: g.choice([3, 4, 6]), dict(rnd=6, pct=8, maxpoints=200000), timed=0.2)
        return ipcify(r, rg)
    conc(c, cf, gen)
    # every operation
    if c.quick: cf = [("gcc", "IJ", it, NW), ("arch", "IJ", ["i8", "i32", "u64", "i128", "flag"], NW)]
    else: cf = [(cfg, "IJ", UNI, NW) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch")]
    def gen2(b, tt):
        rg = random.Random(c.seed); return ipcify(pair_scens(c, tt, "pair", npart=1, deep=0.06 * k, opt=dict(c2=2 * k, rnd=4 * k)) + mix_scens(c, tt, "mix", 2 * k, rnd=10 * k, pct=8 * k, two=0.5, opt=dict(c1=20)), rg)
    conc(c, cf, gen2); c.decide_traces()
def aliasify(scens, tt, rg):
    """lets several references (and several kinds of them) name each object, and the operations pick one"""
    out = []
    for s in scens:
        no = len(s.objs); al = {}
        for o in range(no):
            ty, blk, off, init = s.objs[o]; al[o + 1] = [o + 1]
            if ty[0] != "R": continue
            for w in "RUKR":
                u = tt.get(w + ty[1:])
                if u: s.obj(u, init, blk=blk, off=off); al[o + 1].append(len(s.objs))
        nt = []
        for pr, vw, cs in s.thr:
            ncs = []
            for c in cs:
                f = c.split()
                if f[1][0] != "@":
                    t = s.tys[int(f[2]) - 1]
                    if "cp" not in f[1] and t.op(f[1] + ":cp") and ":" not in f[1] and rg.random() < 0.4: f[1] += ":cp"
                    f[2] = str(rg.choice([a for a in al[int(f[2])] if s.tys[a - 1].op(f[1])]))
                    if rg.random() < 0.2 and t.kd != "pad" and t.op("mkref"): ncs.append("call mkref %s 14 14 - - 0 0 0 1" % al[rg.choice([x for x in al if s.tys[x - 1].op("mkref")])][0])
                ncs.append(" ".join(f))
            nt.append((pr, vw, ncs))
        s.thr = nt; s.id += "_al"; out.append(s)
    return out
def seq_scens(c, tys, tag, n, length, same=lambda t: True):
    """one thread, long random sequences of operations"""
    r = []
    for t in tys.values():
        if t.ty[0] in "K": continue
        for q in range(n):
            rg = random.Random(hash_int("%s%s%d%d" % (tag, t.ty, q, c.seed))); s = Scen("%s_%s_%d" % (tag, t.ty, q), perms=1, c1=0, maxpoints=400000); s.tight(t, t.val(0)); s.thread()
            ops = [o for o in t.ops if o.name not in NOOPS]
            for j in range(length):
                o = rg.choice(ops); add_call(s, t, o, rg.randrange(6), rg.choice(orders(o)), exp=t.val(rg.randrange(3)))
                if j % 4 == 3: s.call("test" if t.kd == "flag" else rg.choice([x for x in t.ops if x.name == "load"]), 1)
            r.append(s)
    return r
def P19(c):
    k = 1 if c.quick else 10; RF = NW + ["-DH_REFS"]; RW = ["-DH_REFS", "-DH_ONLYWAIT", "-DH_FEWWAITS"]
    tys = ["i8", "u16", "i32", "u64", "i128", "f32", "f64", "f80", "pi", "p24", "b", "e16", "s2", "s3", "s4", "s5", "s8", "s12", "s16", "s17", "s33", "p8", "n3"]
    if c.quick: cf = [("gcc", "ARUK", tys, RF + [FEW]), ("fb", "RK", ["i8", "i32", "u64", "s3", "s8", "f64"], RF + [FEW]), ("cx16", "R", ["i128", "s16", "s12", "f80", "i32"], RF + [FEW]), ("clang", "RU", ["i8", "i32", "i128", "s3", "s16", "pi"], RF + [FEW]), ("arch", "RU", ["i16", "i64", "s4", "s16"], RF + [FEW])]
    else: cf = [(cfg, "ARUK", UNI, RF) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "gen", "sync", "fb", "cond", "clangfb")]
    def gen(b, tt):
        rg = random.Random(c.seed); R = {x: t for x, t in tt.items() if x[0] == "R"}
        r = seq_scens(c, {x: t for x, t in tt.items() if x[0] in "ARU"}, "seq", 3 * k, 40) + aliasify(seq_scens(c, R, "seqa", 3 * k, 40), tt, rg)
        noval = {x: t for x, t in R.items()}
        for t in noval.values(): t.ops = [o for o in t.ops if o.id != "load:val"]
        r += aliasify(pair_scens(c, noval, "pair", npart=1, deep=0.1 * k, every=3 if c.quick else 1, opt=dict(c2=2 * k, rnd=3 * k)), tt, rg)
        r += aliasify(mix_scens(c, noval, "mix", 3 * k, rnd=12 * k, pct=8 * k, two=0.4, opt=dict(c1=20 * k)), tt, rg)
        return r
    conc(c, cf, gen)
    wt = ["i8", "u16", "i32", "u64", "i128", "f32", "s3", "s17", "pi", "b", "e8", "f80", "p8"]
    if c.quick: cf = [("gcc", "RUK", wt, RW), ("fb", "RK", ["i32", "s3", "u64"], RW), ("cond", "RUK", ["i32", "i8"], RW)]
    else: cf = [(cfg, "RUK", wt + ["s2", "s8", "s33", "e32", "u8", "i64"], RW) for cfg in ("gcc", "base", "cx16", "old", "oldax", "clang", "arch", "fb", "cond", "condcw", "clangfb")]
    def gen2(b, tt):
        rg = random.Random(c.seed); R = {x: t for x, t in tt.items() if x[0] == "R"}
        for t in R.values(): t.ops = [o for o in t.ops if o.id != "load:val"]
        r = wait_scens(c, R, "w", ["s1", "sa", "2wa", "2w1x2", "pp", "sep", "nochange"], dict(rnd=5 * k, pct=5 * k, c2=3 * k), c1=10 * k)
        r += multi_scens(c, R, "m", 12 * k, lambda g: g.choice([1, 2, 3]), lambda g: g.choice([3, 4, 5]), dict(rnd=8, pct=8, maxpoints=200000), timed=0.2)
        return aliasify(r, tt, rg)
    conc(c, cf, gen2); c.decide_traces()
def insert_call(s, rg, text, thr=None):
    cs = s.thr[rg.randrange(len(s.thr)) if thr is None else thr][2]; cs.insert(rg.randrange(len(cs) + 1), text)
LIVE = "call @live 0 14 14 - - 0 0 0 1"; EXIT = "call @exit 0 14 14 - - 0 0 0 1"
def exiting(scens, rg):
    """the exit handlers run at some point: in a thread of their own, or before or between the calls of another"""
    for s in scens:
        s.opt["mem"] = 1; k = rg.randrange(3)
        if k == 0: s.thr.append((0, 0, [EXIT, LIVE] if rg.random() < 0.7 else [EXIT]))
        elif k == 1: insert_call(s, rg, EXIT)
        else: cs = s.thr[-1][2]; (cs.append(EXIT) if rg.random() < 0.5 else cs.insert(0, EXIT))
        s.id += "_ex"
    return scens
def churn_scens(c, tys, tag, opt, rounds):
    """the same few objects, or ever new ones, are waited on again and again; the memory held is looked at in between"""
    r = []; names = [x for x in sorted(tys) if tys[x].op("wait") and tys[x].kd != "flag"]
    for t in (tys[x] for x in names):
        def mk(kind, n): s = Scen("%s_%s_%s" % (tag, t.ty, kind), **dict(dict(perms=1, c1=0, mem=1, maxpoints=400000, seed=c.seed), **opt)); [s.tight(t, t.val(0)) for _ in range(n)]; return s
        s = mk("pp", 1); s.thread()     # ping-pong
        for i in range(rounds): s.call("wait", 1, t.val(0)); chg(t, s, i=0); s.call("notify_one"); (s.thr[-1][2].append(LIVE) if i % 4 == 3 else None)
        s.thread()
        for i in range(rounds): chg(t, s, i=1); s.call("notify_one"); s.call("wait", 1, t.val(1))
        r.append(s)
        s = mk("to", 12); s.thread()    # timed waits on one object after the other
        for i in range(2 * rounds): s.call("twait:wu_mono", 1 + i % 12, t.val(0), clk=MONO, sec=NOW[MONO][0] + 1 + i); (s.thr[-1][2].append(LIVE) if i % 4 == 3 else None)
        r.append(s)
        s = mk("to3", 4)                # several at a time
        for j in range(3):
            s.thread()
            for i in range(rounds): s.call("twait:wu_mono", 1 + (i * (j + 1) + j) % 4, t.val(0), clk=MONO, sec=NOW[MONO][0] + 1 + i, nsec=j * 1000); (s.thr[-1][2].append(LIVE) if i % 5 == 4 else None)
        r.append(s)
    return r
def P18(c):
    k = 1 if c.quick else 10; t0 = ["i8", "u64", "i128", "s3", "s17", "flag", "i32"]
    if c.quick: cf = [("gcc", "AR", t0, WX + [POOL0]), ("fb", "A", ["i8", "i32", "u64", "s17"], WX + [POOL0]), ("cond", "AR", ["i8", "i32", "s3"], WX + [POOL0]), ("gcc", "A", ["i8", "u64", "s3"], WX + [POOL1]), ("condcw", "A", ["i32"], WX + [POOL0])]
    else: cf = [(cfg, "AR", t0 + ["f80", "b", "s33"], WX + fl) for cfg in ("gcc", "fb", "cond", "condcw", "clang", "clangfb") for fl in ([POOL0], [POOL1])]
    def gen(b, tt):
        rg = random.Random(c.seed); z = {x: t for x, t in tt.items() if not t.nw}; mm = dict(mem=1)
        r = churn_scens(c, z, "ch", dict(rnd=3 * k, pct=2 * k), 10 if c.quick else 30)
        m = multi_scens(c, z, "m", 10 * k, lambda g: g.choice([1, 2, 3, 5]), lambda g: g.choice([3, 4, 6]), dict(mm, rnd=8, pct=8, maxpoints=300000), timed=0.3)
        m += multi_scens(c, z, "mb", 4 * k, lambda g: g.choice([9, 17, 20]), lambda g: g.choice([10, 18, 24]), dict(mm, rnd=3, pct=4, maxpoints=800000), timed=0.1)
        for s in m: [insert_call(s, rg, LIVE) for _ in range(3)]
        r += m
        # exit handlers: with waiters still there, before anything else, in the middle
        r += exiting(wait_scens(c, tt, "xw", ["s1", "2wa", "2w1x2", "pp", "sep", "3w"], dict(rnd=6 * k, pct=6 * k, c2=4 * k), c1=16 * k), rg)
        r += exiting(multi_scens(c, z, "xm", 20 * k, lambda g: g.choice([1, 2, 3, 5]), lambda g: g.choice([2, 3, 4, 6]), dict(rnd=8, pct=8, maxpoints=300000), timed=0.3), rg)
        x = mix_scens(c, tt, "xx", 3 * k, nthr=3, ncalls=3, rnd=6 * k, pct=6 * k, two=0.6, want=lambda t: not t.lf, opt=dict(c1=10 * k, maxpoints=200000)); r += exiting(x, rg)
        return r
    model.check_all(c, ["emul", "pool"], faults=1, n=3)
    conc(c, cf, gen); c.decide_memory(lambda n: 2 if POOL1 in cf[int(n[4:n.index("_")])][3] else 1); c.decide_traces()
def holder(s, t, rg):
    """a thread busy with an object that is not lock-free"""
    i = s.obj(t, t.val(0)); s.thread()
    for k in range(2): s.call(rg.choice(["exchange", "store"]), i, t.val(k + 1))
    return s
def P17(c):
    q = c.quick; rg = random.Random(c.seed)
    # what is reported
    recs = []; std = ["-std=gnu++17"]
    cfgs = ["gcc", "base", "cx16", "old", "oldax", "clang", "arch", "gen", "sync", "fb", "cond", "condcw", "clangfb"]; d = scratch()
    def rep(cfg):
        exe = "%s/rep_%s" % (d, cfg); build.sh(build.CONFIGS[cfg] + ["-O0", "-w", "-I" + REPO + "/include", VERIF + "/harness/report.cpp", "-o", exe])
        return [dict(json.loads(l), grp=cfg) for l in build.sh([exe]).splitlines()]
    reps = [build.pool().submit(rep, x) for x in cfgs]
    # what happens
    if q: cf = [("gcc", "AR", ["i8", "u16", "i32", "u64", "i128", "f32", "f80", "s3", "s7", "s16", "pi", "b", "flag", "e8", "s17"], [FEW, "-DH_FEWWAITS", POOL0]), ("cx16", "AR", ["i128", "s13", "s16", "f64", "u32", "s33"], [FEW, "-DH_FEWWAITS", POOL0]), ("arch", "A", ["i8", "u16", "i32", "i64", "i128", "f32", "pi", "s17"], [FEW, "-DH_FEWWAITS", POOL0]), ("clang", "A", ["i8", "i32", "u128", "s12", "s17"], [FEW, "-DH_FEWWAITS", POOL0]), ("gcc", "IJ", ["i8", "i32", "u64", "i128", "s3", "flag"], [FEW, "-DH_FEWWAITS", POOL0]), ("fb", "A", ["i32", "s8", "flag"], [FEW, "-DH_FEWWAITS", POOL0]), ("cond", "A", ["i32", "s8", "s17"], [FEW, "-DH_FEWWAITS", POOL0])]
    else: cf = [(cfg, ws, UNI, [FEW, "-DH_FEWWAITS", POOL0]) for cfg in ("gcc", "cx16", "arch", "clang", "base") for ws in ("AR", "IJ")] + [(cfg, "AR", UNI, [FEW, "-DH_FEWWAITS", POOL0]) for cfg in ("fb", "cond", "clangfb")]
    k = 1 if q else 12
    def gen(b, tt):
        nl = [t for t in tt.values() if not t.lf and t.kd == "raw"]; lf = {x: t for x, t in tt.items() if t.lf}; nw = {x: t for x, t in tt.items() if t.nw}
        o = dict(c1=0, c2=0, rnd=2 * k, pct=1 * k, suspend=24 * k, nap=1, maxpoints=20000)
        r = pair_scens(c, lf, "sp", npart=1 if q else 3, opt=o)
        m = mix_scens(c, lf, "sm", 2 * k, nthr=3, opt=dict(o, suspend=30 * k), two=0.3)
        if nl: m += [holder(s, rg.choice(nl), rg) for s in mix_scens(c, lf, "sh", 2 * k, nthr=2, opt=dict(o, suspend=60 * k))]
        w = wait_scens(c, nw, "sw", ["s1", "sa", "2wa", "2w1x2", "sep", "pp", "2w2n"], dict(rnd=4 * k, pct=4 * k, c2=0, suspend=80 * k, nap=1, maxpoints=20000), c1=10 * k)
        w += wait_scens(c, nw, "swt", ["s1", "2wa", "alone"], dict(rnd=4 * k, pct=4 * k, c2=0, suspend=50 * k, nap=1, maxpoints=20000), c1=10 * k, timed=lambda g: ("wu_mono", MONO, NOW[MONO][0] + g.choice([1, 3]), 0))
        if nl: w += [holder(s, rg.choice(nl), rg) for s in wait_scens(c, nw, "swh", ["s1", "sa", "2w1x2", "sep"], dict(rnd=4 * k, pct=4 * k, c2=0, suspend=80 * k, nap=1, maxpoints=20000), c1=0)]
        return r + m + w
    conc(c, cf, gen); c.decide_traces()
    for f in reps: recs += f.result()
    c.decide_reports(recs)
# ---- memory orders and fences: litmus programs decided by CppMemory
NOARCH = ["-include", VERIF + "/harness/noarch.h"]; FALLB = ["-DBOOST_ATOMIC_FORCE_FALLBACK"]; SELFBAD = [2, 5, 6, 10, 12, 14, 15, 17, 19]
def litmus_selfcheck(c):
    """the specification gives the known verdicts on the textbook shapes"""
    with open(VERIF + "/spec/selftest/CppMemory.ndjson") as f: ls = [l.strip() for l in f if l.strip()]
    bad, g, d = litmus.tlc.seq_check(ls, spec="CppMemory")
    if sorted(x + 1 for x in bad) != SELFBAD: raise HarnessError("CppMemory self-test: %s" % sorted(x + 1 for x in bad))
def tys(x): return [tuple(z) for w in x.split() for z in [(w[0], w[1:])]]
def lit(c, specs, c1, rnd, perms=2):
    """specs: (configuration, mode: t x86-TSO, w weak memory machine, programs, extra flags)"""
    bs = [litmus.LitBuild("lit%d_%s" % (i, cfg), cfg, ps, wmm="w" in mode, extra=ex) for i, (cfg, mode, ps, ex) in enumerate(specs)]
    for b in bs: b.finish()
    c.log("built %d litmus programs for %s" % (sum(len(b.progs) for b in bs), ", ".join(b.config + ("/weak" if b.wmm else "/tso") for b in bs)))
    for b, (cfg, mode, ps, ex) in zip(bs, specs): litmus.run(c, b, mode, c1, rnd, perms)
    c.cov["build configurations"] = [b.config + (" (weak memory machine)" if b.wmm else " (x86-TSO)") for b in bs]
    litmus_selfcheck(c); litmus.decide(c, {b.name: b for b in bs})
def P15(c):
    rg = random.Random(c.seed); G = litgen; k = 1 if c.quick else 6
    def pr(t, share, n, pref="", deep=False): t = tys(t); return G.per_op(t, pref, rg, share, deep=deep) + G.shapes(t, pref + "Z", rg, n)
    if c.quick: sp = [("gcc", "t", pr("Ai8 Ai16 Ai32 Ai64 Au128", 0.02, 2, "", True) + pr("Ru128 Iu64 Af32 Api Ae8 Aflag Ab As3 As17 Vu32 Rf80", 0.04, 1, "m"), []),
                      ("arch", "t", pr("Au8 Au16 Au32 Au64 Aflag", 0, 1), []), ("sync", "t", pr("Au8 Ai16 Au32 Ai64 Ru128 Aflag", 0, 1), []), ("clang", "t", pr("Ai8 Ai32 Au64 Ri128 Aflag", 0, 1), []), ("cx16", "t", pr("Ai128 Rf80", 0, 1), []),
                      ("gen", "w", pr("Au8 Ai16 Ai32 Ru64 Ai128 Aflag Api Af32 As17", 0, 2), []), ("fb", "w", pr("Ai8 Ri32 Au64 As3 Aflag", 0, 1), []), ("cond", "w", pr("Ai32 As24 Aflag", 0, 1), FALLB), ("clang", "w", pr("Ai16 Ai32 Aflag", 0, 1), NOARCH)]
    else:
        A = "Ai8 Ai16 Ai32 Ai64 Au128 Ru8 Iu32 Ju64 Vi16 Af32 Rf64 Af80 Api Ap24 Ae8 Re32 Ab Rb Aflag Iflag As3 Rs8 As16 As17 Rs33"; F = "Ai8 Ru16 Ai32 Ai64 Au128 Af32 Api Ae16 Ab Aflag As3 Rs17"
        sp = [(cfg, "t", pr(A, 0.5, 12), []) for cfg in ("gcc", "arch", "old", "oldax", "sync", "clang", "cx16", "base", "gen")] + [(cfg, "w", pr(F, 0.7, 14), ex) for cfg, ex in (("gen", []), ("fb", []), ("cond", FALLB), ("clang", NOARCH), ("clangfb", []))]
    lit(c, sp, *((12, 12) if c.quick else (60, 40)))
def P16(c):
    rg = random.Random(c.seed); G = litgen; k = 1 if c.quick else 6
    def pr(t, share, n, sig=True): t = tys(t); return G.fence_progs(t, "F", rg, share) + G.shapes(t, "Y", rg, n, True) + (G.signal_progs("") if sig else [])
    if c.quick: sp = [("gcc", "t", pr("Ai8 Ai32 Au64 Ri128 Aflag Api As17", 0.03, 6), []), ("arch", "t", pr("Ai8 Ai16 Ai32 Au64 Aflag", 0, 4), []), ("sync", "t", pr("Ai32 Ru64 Aflag", 0, 3), []), ("clang", "t", pr("Ai16 Ai32 Aflag", 0, 3), []), ("base", "t", pr("Ai32 Au64 Aflag", 0, 3), []), ("fb", "t", pr("Ai32 As17 Aflag", 0, 4), []),
                      ("gen", "w", pr("Ai8 Ai32 Ru64 Aflag Af32", 0, 6, False), []), ("fb", "w", pr("Ai32 As3 Aflag", 0, 4, False), []), ("clang", "w", pr("Ai32 Ai64 Aflag", 0, 4, False), NOARCH)]
    else:
        A = "Ai8 Ai16 Ai32 Ai64 Au128 Ru8 Iu32 Ju64 Af32 Api Ae8 Ab Aflag As3 Rs17"; F = "Ai8 Ri32 Ai64 Au128 Af32 Api Ab Aflag As3 Rs17"
        sp = [(cfg, "t", pr(A, 0.5, 25), []) for cfg in ("gcc", "arch", "old", "oldax", "sync", "clang", "cx16", "base", "gen", "fb", "cond", "clangfb")] + [(cfg, "w", pr(F, 0.7, 25, False), ex) for cfg, ex in (("gen", []), ("fb", []), ("cond", FALLB), ("clang", NOARCH), ("clangfb", []))]
    lit(c, sp, *((14, 14) if c.quick else (60, 40)))
CHECKS = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "P" and k[1:].isdigit()}
