"""Scenario generation: text for harness/conc.cpp."""
import random, struct
RLX, CONSUME, ACQ, REL, AR, SC = 0, 1, 2, 4, 6, 14
RMW_ORD = [0, 1, 2, 4, 6, 14]; LOAD_ORD = [0, 1, 2, 14]; STORE_ORD = [0, 4, 14]
O_RMW, O_LOAD, O_STORE, O_NONE, O_CAS = range(5)
A_A, A_B, A_BIT, A_DIFF = 1, 2, 4, 8
MONO, REAL, BOOT = 1, 0, 7
# virtual clocks at the start of every run (engine/engine.cpp)
NOW = {MONO: (1000, 999999000), REAL: (700000 + 1000, 999999123), BOOT: (6000, 999999777)}

class Op:
    def __init__(s, name, var, args, ord_, ret, k): s.name, s.var, s.args, s.ord, s.ret, s.k = name, var, args, ord_, ret, k
    @property
    def id(s): return s.name + (":" + s.var if s.var else "") + (":%d" % s.k if s.var == "k" else "")
class Ty:
    def __init__(s, d): s.ty, s.kd, s.n, s.size, s.align, s.es, s.sgn, s.lf, s.nw = (d[k] for k in ("ty", "kd", "n", "size", "align", "es", "sgn", "lf", "nw")); s.ops = [Op(*o) for o in d["ops"]]
    def op(s, oid):
        for o in s.ops:
            if o.id == oid or (o.name == oid and o.var == ""): return o
        return None
    def val(s, i, rng=None):
        """the i-th test value (distinct for small i where the type allows), as value bytes"""
        if s.kd in ("flag", "bool"): return bytes([i & 1])
        if s.kd == "fp":
            v = float([3000, 17000, -5000, 40000, 7000, 11000, -9000, 23000][i % 8] + 100 * (i // 8)) # sums with small differences never reach zero
            return struct.pack("<f", v) if s.n == 4 else struct.pack("<d", v) if s.n == 8 else ld(v)
        if s.kd == "ptr": return struct.pack("<Q", (0x1000 + 0x111 * i) * s.es)
        r = random.Random(1000003 * i + 7); return bytes(r.randrange(1, 256) for _ in range(s.n))
    def diff(s, i):
        d = [2, -3, 1, 7, -11, 5][i % 6]
        if s.kd == "ptr": return struct.pack("<q", d)
        if s.kd == "fp": return struct.pack("<f", d) if s.n == 4 else struct.pack("<d", d) if s.n == 8 else ld(float(d))
        return s.val(40 + i)
def ld(v):
    if v == 0: return bytes(10)
    sg = 0
    if v < 0: sg = 0x8000; v = -v
    n = int(v); assert n == v; e = n.bit_length() - 1
    return struct.pack("<QH", n << (63 - e), sg | (16383 + e))
def hx(b): return b.hex() if b else "-"

class Scen:
    def __init__(s, sid, **opt): s.id, s.opt, s.blks, s.objs, s.thr, s.order = sid, opt, [], [], [], None; s.tys = []; s.slices = []
    def obj(s, ty, init, align=None, off=None, size=None, map2=0, blk=None):
        if blk is None:
            al = align or max(ty.align, 1); o = off if off is not None else 0
            s.blks.append((size or (o + ty.size + 48), max(al, 64), map2)); blk = len(s.blks) - 1; off = o
        s.objs.append((ty.ty, blk, off or 0, init)); s.tys.append(ty); return len(s.objs)
    def tight(s, ty, init, map2=0):
        """an object at the worst address its required alignment allows (crossing a cache line when it can)"""
        off = 64
        if ty.align < ty.size:
            k = (64 - 1) // ty.align * ty.align
            while k + ty.size <= 64 and k > 0: k -= ty.align
            off = k if k + ty.size > 64 else ty.align
        return s.obj(ty, init, align=64, off=off, map2=map2)
    def thread(s, proc=0, view=0): s.thr.append((proc, view, [])); return s
    def call(s, op, o=1, a=b"", b=b"", mo=SC, mo2=None, clk=0, sec=0, nsec=0, rep=1):
        """op: an Op, an id, or a special @call"""
        if isinstance(op, Op): op = op.id
        if mo2 is None: mo2 = fail_order(mo)
        s.thr[-1][2].append("call %s %d %d %d %s %s %d %d %d %d" % (op, o, mo, mo2, hx(a), hx(b), clk, sec, nsec, rep)); return s
    def text(s):
        l = ["scenario " + s.id]
        if s.opt: l.append("opt " + " ".join("%s=%s" % kv for kv in s.opt.items()))
        for b in s.blks: l.append("blk %d %d %d" % b)
        for ty, blk, off, init in s.objs: l.append("obj %s %d %d %s" % (ty, blk, off, hx(init)))
        if s.order is not None: l.append("order " + " ".join(map(str, s.order)))
        for v in s.slices: l.append("slices " + " ".join(map(str, v)))
        for p, v, cs in s.thr: l.append("thread %d %d" % (p, v)); l += cs
        l.append("end\n"); return "\n".join(l)
def fail_order(mo): return {14: 14, 6: 2, 4: 0, 2: 2, 1: 1, 0: 0}[mo]
def orders(op): return {O_RMW: RMW_ORD, O_LOAD: LOAD_ORD, O_STORE: STORE_ORD, O_NONE: [14], O_CAS: RMW_ORD}[op.ord]
def add_call(s, ty, op, i, mo=SC, o=1, exp=None, rng=None, **kw):
    """call op with the i-th operands; exp: expected value of a compare_exchange"""
    a = b = b""
    if op.args & A_BIT:
        if op.args & A_A: a = bytes([(i * 5 + 3) % (8 * ty.n)])
    elif op.args & A_DIFF: a = ty.diff(i) if op.args & A_A else b""
    elif op.args & A_A: a = ty.val(i)
    if op.name.startswith("cas"): a = exp if exp is not None else ty.val(0); b = ty.val(i)
    if mo not in orders(op): mo = orders(op)[-1]
    if op.name in ("twait", "wait") and exp is not None: a = exp
    s.call(op, o, a, b, mo, None, **kw)
