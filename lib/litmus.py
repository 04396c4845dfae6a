"""Litmus programs: small multi-threaded programs over the library's objects, generated as C++ with the operations inlined, run under the
engine; what every thread saw is decided by spec/CppMemory.tla."""
import os, json, random, subprocess, concurrent.futures
import build, tlc
from build import VERIF, REPO, scratch, pool, sh, NJ, CONFIGS
from scen import fail_order
MO = {0: "boost::memory_order_relaxed", 1: "boost::memory_order_consume", 2: "boost::memory_order_acquire", 4: "boost::memory_order_release", 6: "boost::memory_order_acq_rel", 14: "boost::memory_order_seq_cst"}
WRAP = {"A": "boost::atomic<%s>", "I": "boost::ipc_atomic<%s>", "R": "boost::atomic_ref<%s>", "J": "boost::ipc_atomic_ref<%s>", "V": "volatile boost::atomic<%s>"}
FLAGT = {"A": "boost::atomic_flag", "I": "boost::ipc_atomic_flag", "V": "volatile boost::atomic_flag"}
def ctype(ty): return build.TYPES[ty][1].replace("h::", "").replace("boost::int128_type", "__int128").replace("boost::uint128_type", "unsigned __int128")
def kind(ty): return {"wc": "int"}.get(ty, build.TYPES[ty][0])
METH = {"fetch_add": "fetch_add", "fetch_sub": "fetch_sub", "fetch_and": "fetch_and", "fetch_or": "fetch_or", "fetch_xor": "fetch_xor", "fetch_neg": "fetch_negate", "fetch_com": "fetch_complement",
        "add": "add", "sub": "sub", "and": "bitwise_and", "or": "bitwise_or", "xor": "bitwise_xor", "neg": "negate", "com": "bitwise_complement",
        "o_add": "opaque_add", "o_sub": "opaque_sub", "o_and": "opaque_and", "o_or": "opaque_or", "o_xor": "opaque_xor", "o_neg": "opaque_negate", "o_com": "opaque_complement",
        "add_t": "add_and_test", "sub_t": "sub_and_test", "and_t": "and_and_test", "or_t": "or_and_test", "xor_t": "xor_and_test", "neg_t": "negate_and_test", "com_t": "complement_and_test",
        "bts": "bit_test_and_set", "btr": "bit_test_and_reset", "btc": "bit_test_and_complement"}
ARITH = ["fetch_add", "fetch_sub", "add", "sub", "o_add", "o_sub"]; INCDEC = ["preinc", "postinc", "predec", "postdec", "add_t", "sub_t"]
BITS = [x + y for x in ("fetch_%s",) for y in ()] + ["fetch_and", "fetch_or", "fetch_xor", "fetch_com", "and", "or", "xor", "com", "o_and", "o_or", "o_xor", "o_com", "and_t", "or_t", "xor_t", "com_t", "bts", "btr", "btc"]
NEG = ["fetch_neg", "neg", "o_neg"]; BASE = ["exchange", "cas_s", "cas_w"]
ASSIGN = {"pluseq": ("+=", "add"), "minuseq": ("-=", "sub"), "andeq": ("&=", "and"), "oreq": ("|=", "or"), "xoreq": ("^=", "xor")}   # seq_cst, like the operation named
OLDS = ["exchange", "fetch_add", "fetch_sub", "fetch_neg", "fetch_com", "fetch_and", "fetch_or", "fetch_xor", "postinc", "postdec"]
TESTS = ["add_t", "sub_t", "neg_t", "com_t", "and_t", "or_t", "xor_t"]; OPAQUE = ["o_add", "o_sub", "o_neg", "o_com", "o_and", "o_or", "o_xor"]
NOARG = ("fetch_neg", "fetch_com", "neg", "com", "o_neg", "o_com", "neg_t", "com_t", "preinc", "postinc", "predec", "postdec", "tas", "clear", "test", "load")
FIXED_SC = ("preinc", "postinc", "predec", "postdec") + tuple(ASSIGN)
def rmws(ty):
    k = kind(ty)
    if k == "flag": return ["tas"]
    r = list(BASE)
    if k == "int": r += ARITH + INCDEC + BITS + NEG + ["neg_t"] + list(ASSIGN)
    if k == "fp": r += ARITH + NEG + ["pluseq", "minuseq"]
    if k == "ptr": r += ARITH + INCDEC + ["pluseq", "minuseq"]
    if k == "enum": r += BITS + ["andeq", "oreq", "xoreq"]
    return r
def s8(z): z %= 256; return z - 256 if z >= 128 else z
def new(op, x, a=0, b=0):
    op = ASSIGN[op][1] if op in ASSIGN else op
    if op in ("store", "exchange"): return a
    if op == "tas": return 1
    if op == "clear": return 0
    if op in ("fetch_add", "add", "o_add", "add_t"): return x + a
    if op in ("fetch_sub", "sub", "o_sub", "sub_t"): return x - a
    if op in ("preinc", "postinc"): return x + 1
    if op in ("predec", "postdec"): return x - 1
    if op in ("fetch_neg", "neg", "o_neg", "neg_t"): return -x
    if op in ("fetch_com", "com", "o_com", "com_t"): return -x - 1
    if op in ("fetch_and", "and", "o_and", "and_t"): return s8((x % 256) & (a % 256))
    if op in ("fetch_or", "or", "o_or", "or_t"): return s8((x % 256) | (a % 256))
    if op in ("fetch_xor", "xor", "o_xor", "xor_t"): return s8((x % 256) ^ (a % 256))
    if op == "bts": return s8((x % 256) | (1 << a))
    if op == "btr": return s8((x % 256) & ~(1 << a))
    if op == "btc": return s8((x % 256) ^ (1 << a))
    if op[:3] == "cas": return b if x == a else x
def cands(ty, op):
    if op in NOARG: return [0]
    if op in ("bts", "btr", "btc"): return [0, 1, 2]
    if kind(ty) == "bool": return [1, 0]
    return [1, 2, 3, -1, 5, 0]
def inits(ty): return [0, 1] if kind(ty) in ("bool", "flag") else [0, 3, 1, 2]
class Prog:
    def __init__(s, name): s.name, s.objs, s.nd, s.thr, s.nslot, s.cur, s.dx, s.vol, s.pre, s.known = name, [], 0, [], 0, None, False, 0, [], None
    def obj(s, w, ty, init=0): s.objs.append((w, ty, init)); return len(s.objs)
    def var(s): s.nd += 1; return s.nd
    def thread(s): s.thr.append([]); s.cur = s.thr[-1]; return s
    def slot(s): s.nslot += 1; return s.nslot - 1
    def add(s, st): s.cur.append(st); return st.get("s")
    def op(s, o, op, a=0, b=0, mo=14, mf=None, var=""): return s.add(dict(k="op", o=o, op=op, a=a, b=b, mo=mo, mf=fail_order(mo) if mf is None else mf, var=var, s=s.slot()))
    def rd(s, d): return s.add(dict(k="rd", d=d, s=s.slot()))
    def rdx(s, of): return s.add(dict(k="rdx", of=of, s=s.slot()))
    def wr(s, d, v): s.add(dict(k="wr", d=d, v=v))
    def fence(s, mo, sig=False): s.add(dict(k="sfence" if sig else "fence", mo=mo))
    def vrd(s, d): return s.add(dict(k="vrd", d=d, s=s.slot()))
    def vwr(s, d, v): s.add(dict(k="vwr", d=d, v=v))
    def when(s, slot, what, val, body):
        st = dict(k="if", of=slot, w=what, val=val, body=[]); s.cur.append(st); o = s.cur; s.cur = st["body"]; body(); s.cur = o
    def spin(s, what, val, *a, **kw): s.op(*a, **kw); st = s.cur[-1]; st["spin"] = (what, val); return st["s"]
    # ---- C++
    def cpp(s, i):
        n = "L%d" % i; o = ["namespace %s {" % n]
        for k, (w, ty, init) in enumerate(s.objs, 1):
            if kind(ty) == "flag": o.append("alignas(64) %s x%d;%s" % (FLAGT[w], k, " static int ix%d = (x%d.test_and_set(), 0);" % (k, k) if init else "")); continue
            t = ctype(ty); o.append("typedef %s T%d;" % (t, k))
            if w in "RJ": o.append("typedef %s X%d; alignas(64) T%d x%d = C<T%d>::v(%d);" % (WRAP[w] % t, k, k, k, k, init))
            else: o.append("typedef %s X%d; alignas(64) X%d x%d(C<T%d>::v(%d));" % (WRAP[w] % t, k, k, k, k, init))
        for d in range(1, s.nd + 1): o.append("alignas(64) int d%d = 0;" % d)
        for d in range(1, s.vol + 1): o.append("alignas(64) volatile int w%d = 0;" % d)
        if s.dx: o.append("alignas(64) int dx[2] = {};")
        for t, body in enumerate(s.thr, 1):
            pre = []; code = []; slots = []
            s.emit(body, code, pre, slots, "    ")
            o.append("static void t%d() {" % t)
            o += ["    int v%d = -999, f%d = 9;" % (q, q) for q in slots] + ["    " + x for x in pre] + ["    H_ON();"] + code + ["    H_OFF();"] + ["    lit_put(%d, v%d, f%d);" % (q, q, q) for q in slots] + ["    eng_flush();", "}"]
        o.append("static void fin() {"); q = s.nslot
        for k, (w, ty, init) in enumerate(s.objs, 1):
            if kind(ty) == "flag": o.append("    lit_put(%d, x%d.test(), 2);" % (q, k))
            else: o.append("    lit_put(%d, C<T%d>::n(%s.load()), 2);" % (q, k, s.x(k)))
            q += 1
        for d in range(1, s.nd + 1): o.append("    lit_put(%d, d%d, 2);" % (q, d)); q += 1
        o.append("}")
        o.append("struct R { R() { lit_progs().push_back(LitProg{\"%s\", %d, {%s}, fin}); } } r_;\n}" % (s.name, len(s.thr), ", ".join("t%d" % (k + 1) for k in range(len(s.thr)))))
        return "\n".join(o)
    def x(s, k): return ("(X%d(x%d))" if s.objs[k - 1][0] in "RJ" else "x%d%.0s") % ((k, k) if s.objs[k - 1][0] in "RJ" else (k, 0))
    def emit(s, body, o, pre, slots, ind):
        for st in body:
            k = st["k"]
            if k == "op":
                c = s.opc(st, pre); slots.append(st["s"])
                if "spin" in st: w, v = st["spin"]; c = "do { %s } while (%s%d != %d);" % (c, w, st["s"], v)
                o.append(ind + c)
            elif k == "rd": o.append(ind + "v%d = RD(d%d); f%d = 2;" % (st["s"], st["d"], st["s"])); slots.append(st["s"])
            elif k == "rdx": o.append(ind + "v%d = RD(dx[v%d & 1]); f%d = 2;" % (st["s"], st["of"], st["s"])); slots.append(st["s"])
            elif k == "wr": o.append(ind + "WRI(%s, %d);" % (st["d"] if isinstance(st["d"], str) else "d%d" % st["d"], st["v"]))
            elif k == "vrd": o.append(ind + "v%d = w%d; f%d = 2;" % (st["s"], st["d"], st["s"])); slots.append(st["s"])
            elif k == "vwr": o.append(ind + "w%d = %d;" % (st["d"], st["v"]))
            elif k == "fence": o.append(ind + "boost::atomic_thread_fence(%s);" % MO[st["mo"]])
            elif k == "sfence": o.append(ind + "boost::atomic_signal_fence(%s);" % MO[st["mo"]])
            elif k == "if": o.append(ind + "if (%s%d == %d) {" % (st["w"], st["of"], st["val"])); s.emit(st["body"], o, pre, slots, ind + "    "); o.append(ind + "}")
    def opc(s, st, pre):
        w, ty, _ = s.objs[st["o"] - 1]; X = s.x(st["o"]); q = st["s"]; T = "T%d" % st["o"]; op = st["op"]; kd = kind(ty); sc = st["mo"] == 14
        def val(z):
            e = "%s(%d)" % ("C<%s>::v" % T, z)
            if kd == "ptr" and op not in ("store", "exchange", "cas_s", "cas_w", "wait", "twait"): e = "%d" % z
            if op in ("bts", "btr", "btc"): e = "%du" % z
            if not st.get("spin") and ((q + z) % 2 if s.known is None else not s.known): nm = "k%d_%d" % (q, len(pre)); pre.append("auto %s = %s; __asm__ __volatile__(\"\" : \"+m\"(%s));" % (nm, e, nm)); return nm   # a value the compiler does not know
            return e
        m = MO[st["mo"]]; mm = "" if st["var"] == "d" and sc else ", " + m; m0 = "" if st["var"] == "d" and sc else m
        n = "v%d = C<%s>::n(%%s); f%d = 2;" % (q, T, q); none = "%%s; f%d = 2;" % q; fl = "f%d = %%s;" % q
        if op == "load": return n % ("%s(%s)" % (T, X) if st["var"] == "conv" and w not in "RJ" else "%s.load(%s)" % (X, m0))
        if op == "store": return none % ("%s = %s" % (X, val(st["a"])) if st["var"] == "assign" else "%s.store(%s%s)" % (X, val(st["a"]), mm))
        if op == "exchange": return n % ("%s.exchange(%s%s)" % (X, val(st["a"]), mm))
        if op in ("cas_s", "cas_w"):
            return "{ %s e = %s; f%d = %s.compare_exchange_%s(e, %s%s); v%d = C<%s>::n(e); }" % (T, val(st["a"]), q, X, "strong" if op == "cas_s" else "weak", val(st["b"]), mm if st["var"] in ("1", "d") else ", %s, %s" % (m, MO[st["mf"]]), q, T)
        if op == "wait": return n % ("%s.wait(%s%s)" % (X, val(st["a"]), mm))
        if op == "twait": return n % ("%s.wait_for(%s, std::chrono::hours(1)%s).value" % (X, val(st["a"]), mm))
        if op == "notify": return none % ("%s.notify_all()" % X)
        if op == "test": return fl % ("%s.test(%s)" % (X, m0))
        if op == "tas": return fl % ("%s.test_and_set(%s)" % (X, m0))
        if op == "clear": return none % ("%s.clear(%s)" % (X, m0))
        if op == "preinc": return n % ("++" + X)
        if op == "predec": return n % ("--" + X)
        if op == "postinc": return n % (X + "++")
        if op == "postdec": return n % (X + "--")
        if op in ASSIGN: return n % ("(%s %s %s)" % (X, ASSIGN[op][0], val(st["a"])))
        args = m0 if op in NOARG else val(st["a"]) + mm
        call = "%s.%s(%s)" % (X, METH[op], args)
        if op in OPAQUE: return none % call
        if op in TESTS or op in ("bts", "btr", "btc"): return fl % call
        return n % call
    # ---- events of one run
    def events(s, r, bad):
        E = []
        def ev(t, k, o, op, a=0, b=0, v=-999, f=2, mo=0, mf=0, dep=0): E.append(dict(t=t, k=k, o=o, op=op, a=a, b=b, v=v, f=f, mo=mo, mf=mf, dep=dep)); return len(E)
        for k, (w, ty, init) in enumerate(s.objs, 1): ev(0, "o", k, "init", init)
        for d in range(1, s.nd + 1): ev(0, "d", d, "init")
        for d in range(1, s.vol + 1): ev(0, "o", 50 + d, "init")
        if s.dx:
            for d in range(2): ev(0, "d", 100 + d, "init")
        if bad: ev(1, "o", 1, bad); return E
        pos = {}
        def walk(t, body):
            for st in body:
                k = st["k"]
                if k == "op":
                    if st["op"] == "notify": continue
                    v, f = r[st["s"]]; op = ASSIGN[st["op"]][1] if st["op"] in ASSIGN else st["op"]
                    if f == 9: ev(t, "o", st["o"], "missing"); return
                    pos[st["s"]] = ev(t, "o", st["o"], op, st["a"], st["b"], v, f, st["mo"], st["mf"])
                elif k == "rd": ev(t, "d", st["d"], "rd", v=r[st["s"]][0], dep=0)
                elif k == "rdx": ev(t, "d", 100 + (r[st["of"]][0] & 1), "rd", v=r[st["s"]][0], dep=pos.get(st["of"], 0))
                elif k == "wr": ev(t, "d", st["d"] if not isinstance(st["d"], str) else 100 + int(st["d"][3]), "wr", st["v"])
                elif k == "vrd": ev(t, "o", 50 + st["d"], "load", v=r[st["s"]][0])
                elif k == "vwr": ev(t, "o", 50 + st["d"], "store", st["v"])
                elif k == "fence": ev(t, "f", 0, "fence", mo=st["mo"])
                elif k == "sfence": ev(t, "f", 0, "fence", mo=st["mo"])
                elif k == "if":
                    if r[st["of"]][0 if st["w"] == "v" else 1] == st["val"]: walk(t, st["body"])
        for t, body in enumerate(s.thr, 1): walk(t, body)
        q = s.nslot
        for k, (w, ty, init) in enumerate(s.objs, 1):
            if kind(ty) == "flag": ev(99, "o", k, "test", f=r[q][0])
            else: ev(99, "o", k, "load", v=r[q][0])
            q += 1
        for d in range(1, s.nd + 1): ev(99, "d", d, "rd", v=r[q][0]); q += 1
        return E
class LitBuild:
    """All programs of one configuration: one executable (weak memory machine: wmm) with the library's sources."""
    def __init__(s, name, config, progs, wmm=False, extra=(), per=40):
        s.name, s.config, s.progs, s.wmm = name, config, {p.name: p for p in progs}, wmm; assert len(s.progs) == len(progs), name
        s.dir = os.path.join(scratch(), name); os.makedirs(s.dir, exist_ok=True); cfg = CONFIGS[config]; s.cxx = cfg[0]
        inc = ["-I" + REPO + "/include", "-I" + VERIF + "/harness", "-I" + VERIF + "/engine"]; san = ["-fsanitize=thread", "-DLIT_WMM"] if wmm else []
        def cc(src, obj, fl=()): return pool().submit(sh, [x for x in cfg + list(extra) if not (src.startswith(REPO) and "FORCE_FALLBACK" in x)] + san + inc + list(fl) + ["-w", "-include", "array", "-c", src, "-o", obj])
        s.objs = []; jobs = []
        for i in range(0, len(progs), per):
            src = "%s/p%d.cpp" % (s.dir, i)
            with open(src, "w") as f: f.write('#include "lit.hpp"\n' + "\n".join(p.cpp(i + j) for j, p in enumerate(progs[i:i + per])) + "\n")
            s.objs.append(src[:-4] + ".o"); jobs.append(cc(src, s.objs[-1]))
        for z, fl in (("lock_pool", []), ("find_address_sse2", ["-msse2"]), ("find_address_sse41", ["-msse4.1"])):
            o = "%s/%s.o" % (s.dir, z); s.objs.append(o); jobs.append(cc("%s/src/%s.cpp" % (REPO, z), o, ["-I" + REPO + "/src", "-DBOOST_ATOMIC_SOURCE", "-DBOOST_ATOMIC_STATIC_LINK", "-DBOOST_ATOMIC_USE_SSE2", "-DBOOST_ATOMIC_USE_SSE41"] + fl))
        o = s.dir + "/lit.o"; s.objs.append(o); jobs.append(cc(VERIF + "/harness/lit.cpp", o)); s.ej = pool().submit(build.engine); s.jobs = jobs
    def finish(s):
        for j in s.jobs: j.result()
        so = s.ej.result(); s.exe = s.dir + "/lit"; sh([s.cxx, "-no-pie", "-rdynamic", "-Wl,-z,now", "-o", s.exe] + s.objs + [so, "-Wl,-rpath," + os.path.dirname(so), "-lpthread"])
        s.tab = s.exe + ".tab"; import sys; sh([sys.executable, VERIF + "/engine/mktable.py", s.exe, s.tab]); return s
def run(c, b, mode, c1, rnd, perms=2, chunk=None):
    """runs every program of a build; outcomes go to c.lit, keyed by what the specification sees"""
    ids = sorted(b.progs); n = max(1, min(25, len(ids) // (NJ * 4) + 1)); parts = [ids[i:i + n] for i in range(0, len(ids), n)]
    if not hasattr(c, "lit"): c.lit = {}
    def go(part):
        p = subprocess.run([b.exe, b.tab, mode, str(c.seed), str(c1), str(rnd), str(perms)], input="\n".join(part) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=840)
        if p.returncode: raise RuntimeError("litmus harness %s failed (%d): %s" % (b.name, p.returncode, p.stderr[-1500:]))
        return p.stdout
    with concurrent.futures.ThreadPoolExecutor(NJ) as ex:
        for out in ex.map(go, parts):
            for l in out.splitlines():
                d = json.loads(l)
                if "stat" in d: c.runs += d["runs"]; c.points += d["points"]; continue
                P = b.progs[d["l"]]; bad = d["x"][0]["k"] if d["x"] else "" if d["r"] else "quiet"
                k = json.dumps(P.events(d["r"], bad), separators=(",", ":")); c.lit.setdefault(k, []).append((b.name, d["l"], d["how"])) if len(c.lit.get(k, ())) < 3 else None
    c.cov["litmus programs"] = c.cov.get("litmus programs", 0) + len(ids)
def decide(c, b_by_name):
    ks = sorted(c.lit, key=len); ls = ['{"ev":%s}' % k for k in ks] ; import time; t = time.time()
    bad, g, d = tlc.seq_check(ls, spec="CppMemory", timeout=840); c.trans += g; c.states += d; c.traces += len(ls)
    c.log("CppMemory: %d of %d distinct outcomes allowed (%.1fs), %d executions" % (len(ls) - len(bad), len(ls), time.time() - t, c.runs))
    for i in bad[:40]:
        src = c.lit[ks[i]]; b = b_by_name[src[0][0]]; P = b.progs[src[0][1]]
        c.violation("outcome of %s not allowed by CppMemory: %s" % (src[0][1], show(json.loads(ks[i]))), {"kind": "litmus", "ev": json.loads(ks[i]), "found_by": src, "config": b.config, "wmm": b.wmm, "program": P.cpp(0)}, ks[i])
    for i in c.rng.sample(range(len(ls)), min(3, len(ls))): c.samples.append("%s: %s" % (c.lit[ks[i]][0][1], show(json.loads(ks[i])))[:700])
    c.cov["distinct litmus outcomes"] = len(ls); c.lit = {}
ON = {0: "rlx", 1: "con", 2: "acq", 4: "rel", 6: "ar", 14: "sc"}
def show(E):
    t = {}
    for e in E:
        if e["op"] == "init": continue
        x = "%s%d.%s" % ("x" if e["k"] == "o" else e["k"], e["o"], e["op"]) if e["op"] != "fence" else "fence"
        t.setdefault(e["t"], []).append(x + ("(%d,%d)" % (e["a"], e["b"]) if e["op"][:3] == "cas" else "(%d)" % e["a"] if e["op"] in ("store", "wr", "exchange") or e["a"] else "") + (":" + ON[e["mo"]] if e["k"] != "d" and e["t"] != 99 else "") + ("=%d" % e["v"] if e["v"] != -999 else "") + ("/%d" % e["f"] if e["f"] != 2 else ""))
    return " || ".join("; ".join(t[k]) for k in sorted(t))
