"""Which litmus programs are run."""
import random, re, copy
from litmus import *
LD, ST, RW = [0, 1, 2, 14], [0, 4, 14], [0, 1, 2, 4, 6, 14]
def fl(ty): return kind(ty) == "flag"
def warg(ty, op, avoid=()):
    """initial value, operands and resulting value of an operation that changes the object"""
    for i in inits(ty):
        for a in cands(ty, op):
            if op[:3] == "cas": w = a; x = (i, i, a, w)
            else: w = new(op, i, a); x = (i, a, 0, w)
            if w != i and (kind(ty) != "bool" or w in (0, 1)) and w not in avoid: return x
    return None
def writers(ty): return (["clear"] if fl(ty) else ["store"]) + rmws(ty)
def readers(ty): return (["test"] if fl(ty) else ["load", "casfail"]) + rmws(ty)
def rel_orders(op): return [14] if op in FIXED_SC else [4, 14] if op in ("store", "clear") else [4, 6, 14]
def acq_orders(op): return [14] if op in FIXED_SC else [2, 14] if op in ("load", "test", "wait", "twait") else [2, 6, 14]
def variants(op, mo):
    v = [""]
    if mo == 14 and op not in FIXED_SC: v.append("d")
    if op == "store" and mo == 14: v.append("assign")
    if op == "load" and mo == 14: v.append("conv")
    if op[:3] == "cas": v.append("1")
    return v
def look(p, o, ty, w, mo, body):
    """the plain reading side: body runs when the object is seen to hold w"""
    if fl(ty): r = p.op(o, "test", mo=mo); p.when(r, "f", w, body)
    else: r = p.op(o, "load", mo=mo); p.when(r, "v", w, body)
    return r
def publish(p, o, ty, mo, w=1):
    if fl(ty): p.op(o, "tas" if w else "clear", mo=mo)
    else: p.op(o, "store", w, mo=mo)
def mp_writer(name, w, ty, op, mo, var="", acq=2, fence=None, rmo=None):
    x = warg(ty, op)
    if not x: return None
    p = Prog(name); o = p.obj(w, ty, x[0]); d = p.var()
    p.thread(); p.wr(d, 1)
    if fence is not None: p.fence(fence)
    p.op(o, op, x[1], x[2], mo, var=var); p.wr(d, 2)
    p.thread(); p.rd(d)
    if rmo is None: look(p, o, ty, x[3], acq, lambda: p.rd(d))
    else: look(p, o, ty, x[3], rmo, lambda: (p.fence(acq), p.rd(d)))
    return p
def reader(p, o, ty, op, mo, mf, var, body, i=0, w=1):
    """applies op; body runs if it must have seen the value w and cannot have seen i"""
    if op in ("load", "wait", "twait"): r = p.op(o, op, i, mo=mo, var=var); p.when(r, "v", w, body); return r
    if op == "test": r = p.op(o, op, mo=mo, var=var); p.when(r, "f", w, body); return r
    if op == "tas": r = p.op(o, op, mo=mo, var=var); p.when(r, "f", w, body); return r
    if op == "casfail":
        e = 7 if kind(p.objs[o - 1][1]) != "bool" else i
        r = p.op(o, "cas_s" if mo != 1 else "cas_w", e, 5 if e == 7 else i, mo, mf, var); p.when(r, "v", w, body); return r
    if op[:3] == "cas": r = p.op(o, op, w, i, mo, mf, var); p.when(r, "f", 1, body); return r
    aop = ASSIGN[op][1] if op in ASSIGN else op
    for a in cands(ty, op):
        x, y = new(op, i, a), new(op, w, a)
        if aop in OLDS: r = p.op(o, op, a, 0, mo, var=var); p.when(r, "v", w, body); return r
        if aop in TESTS:
            if bool(x) == bool(y): continue
            r = p.op(o, op, a, 0, mo, var=var); p.when(r, "f", int(bool(y)), body); return r
        if aop in ("bts", "btr", "btc"):
            if (i >> a) & 1 == (w >> a) & 1: continue
            r = p.op(o, op, a, 0, mo, var=var); p.when(r, "f", (w >> a) & 1, body); return r
        if x == y: continue
        if aop in OPAQUE:
            if y == w or x == y: continue
            p.op(o, op, a, 0, mo, var=var); r = p.op(o, "load", mo=0); p.when(r, "v", y, body); return r
        r = p.op(o, op, a, 0, mo, var=var); p.when(r, "v", y, body); return r
    return None
def mp_reader(name, w, ty, op, mo, mf=None, var="", rel=4, fence=None, i=0, pf=None):
    p = Prog(name); o = p.obj(w, ty, i); d = p.var(); p.thread(); p.wr(d, 1)
    if pf is not None: p.fence(pf)
    publish(p, o, ty, rel, 1 - i)
    if op in ("wait", "twait"): p.op(o, "notify")
    p.thread(); p.rd(d)
    r = reader(p, o, ty, op, mo, mf, var, (lambda: (p.fence(fence), p.rd(d))) if fence is not None else (lambda: p.rd(d)), i, 1 - i)
    return p if r is not None else None
def mp_consume(name, w, ty, op, var=""):
    p = Prog(name); o = p.obj(w, ty); p.dx = True; p.thread(); p.wr("dx[1]", 1); publish(p, o, ty, 4)
    p.thread(); r = p.op(o, "load", mo=1) if op == "load" else p.op(o, "cas_s", 7, 5, 14, 1) if op == "casfail" else p.op(o, op, cands(ty, op)[0], 0, 1) if op != "wait" else p.op(o, "wait", 0, mo=1); p.rdx(r)
    if op == "wait": p.cur = p.thr[0]; p.op(o, "notify")
    return p
def sb(name, w, ty, op, var, w2, ty2, side, rop="load", rvar=""):
    """side: op writes (P) or reads (Q); all seq_cst"""
    p = Prog(name); x = warg(ty, op) if side == "P" else (0,); x = x or (0, 1, 0, 1)
    o = p.obj(w, ty, x[0]); o2 = p.obj(w2, ty2); p.thread()
    if side == "P": p.op(o, op, x[1], x[2], 14, var=var); reader(p, o2, ty2, "test" if fl(ty2) else "load", 14, None, "", lambda: None)
    else:
        publish(p, o2, ty2, 14)
        if reader(p, o, ty, op, 14, None, var, lambda: None) is None: return None
    p.thread()
    if side == "P": publish(p, o2, ty2, 14); p.op(o, "test" if fl(ty) else "load", mo=14)
    else: publish(p, o, ty, 14); p.op(o2, "test" if fl(ty2) else "load", mo=14)
    return p
def relseq(name, w, ty, op, mo):
    """a read-modify-write of another thread between the release and the acquire"""
    for a in cands(ty, op):
        for st in (1, 2, 3):
            b = 5 if op[:3] == "cas" else 0; aa = st if op[:3] == "cas" else a
            y = new(op, st, aa, b); z = new(op, 0, aa, b)
            if y in (0, st, z): continue
            p = Prog(name); o = p.obj(w, ty); d = p.var(); p.thread(); p.wr(d, 1); p.op(o, "store", st, mo=4); p.thread(); p.op(o, op, aa, b, mo, 0 if op[:3] == "cas" else None)
            p.thread(); look(p, o, ty, y, 2, lambda: p.rd(d)); return p
    return None
def rnd_rw(p, rg, o, ty, i=0):
    """a random writing operation leaving 1 in an object that holds 0"""
    ops = [q for q in writers(ty) if q not in FIXED_SC and (new(q, 0, 1) == 1 or q[:3] == "cas" or q == "bts")]
    op = rg.choice(ops) if rg.random() < 0.5 else ops[0]; return (op, 0, 1) if op[:3] == "cas" else (op, 0 if op == "bts" else 1, 0)
def rnd_w(p, rg, o, ty, mo):
    op, a, b = rnd_rw(p, rg, o, ty)
    if op in ("store", "clear") and mo in (1, 2, 6): mo = 14 if mo == 6 else 0
    if fl(ty): op, a, b = "tas", 0, 0
    return p.op(o, op, a, b, mo)
def rnd_r(p, rg, o, ty, mo, body=lambda: None, w=1):
    ops = [q for q in readers(ty) if q not in FIXED_SC]
    if rg.random() < 0.5: ops = ops[:1]
    rg.shuffle(ops)
    for op in ops:
        m = mo
        if op in ("load", "test") and mo == 6: m = 2
        r = reader(p, o, ty, op, m, None, "", body, 0, w)
        if r is not None: return r
def classic(name, shape, objs, rg, fences=False):
    """shapes over 2 objects; fences: orders come from thread fences and the operations themselves are relaxed"""
    p = Prog(name); (w1, t1), (w2, t2) = objs; x = p.obj(w1, t1); y = p.obj(w2, t2); R, A, S = (0, 0, 0) if fences else (rg.choice([4, 6]), rg.choice([2, 6]), 14)
    def F(m):
        if fences: p.fence(m)
    def W(o, mo): rnd_w(p, rg, o, (t1, t2)[o - 1], mo)
    def Q(o, mo, body=lambda: None): return rnd_r(p, rg, o, (t1, t2)[o - 1], mo, body)
    RF, AF = rg.choice([4, 6, 14]), rg.choice([2, 6, 14])
    if shape == "IRIW": p.thread(); W(x, S); p.thread(); W(y, S); p.thread(); look(p, x, t1, 1, S, lambda: None); F(14); look(p, y, t2, 1, S, lambda: None); p.thread(); look(p, y, t2, 1, S, lambda: None); F(14); look(p, x, t1, 1, S, lambda: None)
    elif shape == "RWC": p.thread(); W(x, S); p.thread(); look(p, x, t1, 1, S, lambda: None); F(14); look(p, y, t2, 1, S, lambda: None); p.thread(); W(y, S); F(14); look(p, x, t1, 1, S, lambda: None)
    elif shape == "WRC":
        d = p.var(); p.thread(); p.wr(d, 1); F(RF); W(x, R); p.thread(); Q(x, A, lambda: (F(AF), F(RF), W(y, R))); p.thread(); Q(y, A, lambda: (F(AF), p.rd(d)))
    elif shape == "ISA2":
        d, e = p.var(), p.var(); p.thread(); p.wr(d, 1); F(RF); W(x, R); p.thread(); Q(x, A, lambda: (F(AF), p.rd(d), p.wr(e, 1), F(RF), W(y, R))); p.thread(); Q(y, A, lambda: (F(AF), p.rd(d), p.rd(e)))
    elif shape == "SB": p.thread(); W(x, S); F(14); Q(y, S); p.thread(); W(y, S); F(14); Q(x, S)
    elif shape == "R": p.thread(); W(x, S); F(14); publish(p, y, t2, S); p.thread(); W(y, S); F(14); look(p, x, t1, 1, S, lambda: None)
    elif shape == "2+2W" and not (fl(t1) or fl(t2) or "bool" in (kind(t1), kind(t2))): p.thread(); p.op(x, "store", 1, mo=S); F(14); p.op(y, "store", 2, mo=S); p.thread(); p.op(y, "store", 1, mo=S); F(14); p.op(x, "store", 2, mo=S)
    elif shape == "S" : p.thread(); W(x, 0); F(RF); W(y, R); p.thread(); Q(y, A, lambda: (F(AF), p.op(x, "clear" if fl(t1) else "store", 0, mo=0)))
    elif shape == "CORR":
        p.thread(); W(x, 0); p.thread(); look(p, x, t1, 1, 0, lambda: None); look(p, x, t1, 1, 0, lambda: None); p.thread(); p.op(x, "test" if fl(t1) else "load", mo=0); Q(y, 0); p.op(x, "test" if fl(t1) else "load", mo=0)
    elif shape == "LOCK":
        d = p.var()
        for t in (1, 2, 3):
            p.thread()
            def cs(t=t): F(AF); p.rd(d); p.wr(d, t); F(RF); p.op(x, "clear" if fl(t1) else "store", 0, mo=0 if fences else rg.choice([4, 14]))
            m = 0 if fences else A
            if fl(t1): r = p.op(x, "tas", mo=m); p.when(r, "f", 0, cs)
            elif rg.random() < 0.5: r = p.op(x, "exchange", 1, mo=m); p.when(r, "v", 0, cs)
            else: r = p.op(x, rg.choice(["cas_s", "cas_w"]), 0, 1, m, 0); p.when(r, "f", 1, cs)
    elif shape == "PING":   # hand a variable to the other thread and get it back
        d = p.var(); p.thread(); p.wr(d, 1); F(RF); W(x, R); Q(y, A, lambda: (F(AF), p.rd(d), p.wr(d, 3))); p.thread(); Q(x, A, lambda: (F(AF), p.rd(d), p.wr(d, 2), F(RF), W(y, R)))
    else: return None
    return p
SHAPES = ["IRIW", "RWC", "WRC", "ISA2", "SB", "R", "2+2W", "S", "CORR", "LOCK", "PING"]
def choose(r, rg, share, deep):
    """a random selection in which every operation appears in every role with every order (and, when deep, does so for every type)"""
    r = list(r); rg.shuffle(r); seen = set(); out = []
    for p in r:
        t, rest = p.name.split("_", 1); k = {rest}
        if deep: k.add((t, re.sub(r"_\d+\w*?(u?)$", r"\1", rest)))
        if share >= 1 or not k <= seen or rg.random() < share: out.append(p); seen |= k
    return out
KNOWN = ["fetch_add", "fetch_sub", "add", "sub", "o_add", "o_sub", "add_t", "sub_t"]
def per_op(tys, pref, rg, share=1.0, other=None, deep=False):
    """every operation of every type in every role"""
    r = []
    def add(p, op=None):
        if p is None: return
        r.append(p)
        if op in KNOWN:   # the operand may select another instruction when the compiler knows it
            p.known = True; q = copy.copy(p); q.known = False; q.name += "u"; r.append(q)
    for (w, ty) in tys:
        t = "%s%s%s" % (pref, w, ty); b = not fl(ty)
        for op in writers(ty):
            for mo in rel_orders(op):
                for v in variants(op, mo): add(mp_writer("%s_P_%s_%d%s" % (t, op, mo, v), w, ty, op, mo, v), op)
            for v in variants(op, 14):
                if rg.random() < 0.6 or op in ("store", "clear"): w2, ty2 = rg.choice(other or tys); add(sb("%s_SBP_%s%s" % (t, op, v), w, ty, op, v, w2, ty2, "P"))
            if op not in ("store", "clear", "tas") and op not in FIXED_SC and kind(ty) != "bool":
                if rg.random() < 0.5: add(relseq("%s_RS_%s" % (t, op), w, ty, op, rg.choice([0, 2])))
        for op in readers(ty) + ["wait", "twait"]:
            for mo in acq_orders(op):
                for v in variants("cas_s" if op == "casfail" else op, mo):
                    if op == "casfail":
                        if v == "": 
                            for mf in (2, 14):
                                if mf == 14 and mo != 14: continue
                                add(mp_reader("%s_Q_%s_%d_%d" % (t, op, mo, mf), w, ty, op, mo, mf))
                        else: add(mp_reader("%s_Q_%s_%d%s" % (t, op, mo, v), w, ty, op, mo, None, v))
                    elif op in ("wait", "twait") and fl(ty): 
                        continue
                    else: add(mp_reader("%s_Q_%s_%d%s" % (t, op, mo, v), w, ty, op, mo, None, v), op)
            if op in OLDS + ["load", "casfail", "wait"] and b and op not in FIXED_SC and kind(ty) not in ("bool",): add(mp_consume("%s_C_%s" % (t, op), w, ty, op))
            for v in variants("cas_s" if op == "casfail" else op, 14):
                if op in ("wait", "twait"): continue
                if rg.random() < 0.4 or op in ("load", "test"): w2, ty2 = rg.choice(other or tys); add(sb("%s_SBQ_%s%s" % (t, op, v), w, ty, op, v, w2, ty2, "Q"))
    return choose(r, rg, share, deep)
def shapes(tys, pref, rg, n, fences=False):
    r = []
    for k in range(n):
        for sh_ in SHAPES:
            p = classic("%s%s%d" % (pref, sh_, k), sh_, (rg.choice(tys), rg.choice(tys)), rg, fences)
            if p: r.append(p)
    return r
def fence_sb(name, w, ty, w2, ty2, k):
    """store buffering and its relatives with seq_cst fences; k: both threads fenced, or one relies on seq_cst operations"""
    p = Prog(name); x = p.obj(w, ty); y = p.obj(w2, ty2)
    def st(o, t, mo): p.op(o, "tas" if fl(t) else "store", 1, mo=mo) if not fl(t) else p.op(o, "clear", mo=mo)
    x1 = 1 if fl(ty) else 0; y1 = 1 if fl(ty2) else 0
    p.objs[0] = (w, ty, x1); p.objs[1] = (w2, ty2, y1)
    def ld(o, t, mo): p.op(o, "test" if fl(t) else "load", mo=mo)
    p.thread(); st(x, ty, 0); p.fence(14); ld(y, ty2, 0)
    if k == 2: p.fence(14); ld(x, ty, 0)
    p.thread(); st(y, ty2, 14 if k == 1 else 0)
    if k != 1: p.fence(14)
    ld(x, ty, 14 if k == 1 else 0)
    return p
def fence_progs(tys, pref, rg, share=1.0, deep=False):
    """relaxed operations ordered by thread fences"""
    r = []; sbs = []
    def add(p, op=None):
        if p is None: return
        r.append(p)
        if op in KNOWN:   # the operand may select another instruction when the compiler knows it
            p.known = True; q = copy.copy(p); q.known = False; q.name += "u"; r.append(q)
    for n, (w, ty) in enumerate(tys):
        for k in range(3): w2, ty2 = tys[(n + k) % len(tys)]; sbs.append(fence_sb("%s%s%s_FSB_%d" % (pref, w, ty, k), w, ty, w2, ty2, k))
    for (w, ty) in tys:
        t = "%s%s%s" % (pref, w, ty)
        for op in writers(ty):
            if op in FIXED_SC: continue
            for f in (4, 6, 14): add(mp_writer("%s_FP_%s_%d" % (t, op, f), w, ty, op, 0, fence=f), op); add(mp_writer("%s_FPP_%s_%d" % (t, op, f), w, ty, op, 0, fence=f, rmo=0, acq=rg.choice([1, 2, 6, 14])))
        for op in readers(ty) + ["wait"]:
            if op in FIXED_SC or (fl(ty) and op == "wait"): continue
            for f in (1, 2, 6, 14): add(mp_reader("%s_FQ_%s_%d" % (t, op, f), w, ty, op, 0, 0 if op[:3] == "cas" else None, fence=f)); add(mp_reader("%s_FQQ_%s_%d" % (t, op, f), w, ty, op, 0, 0 if op[:3] == "cas" else None, rel=0, fence=f, pf=rg.choice([4, 6, 14])))
    return choose(r, rg, share, deep) + sbs
def signal_progs(pref):
    """thread 2 plays a signal handler of thread 1: runs at any instruction, and only the compiler could have moved accesses"""
    r = []
    for f in (4, 6, 14):
        p = Prog("%sS_rel%d" % (pref, f)); d = p.var(); p.vol = 2; p.thread(); p.wr(d, 1); p.fence(f, True); p.vwr(1, 1); p.wr(d, 2); p.thread(); v = p.vrd(1); p.fence(2, True); p.when(v, "v", 1, lambda: p.rd(d)); r.append(p)
        p = Prog("%sS_two%d" % (pref, f)); d = p.var(); e = p.var(); p.vol = 1; p.thread(); p.wr(d, 1); p.wr(e, 1); p.fence(f, True); p.vwr(1, 1); p.wr(e, 2); p.wr(d, 2); p.thread(); v = p.vrd(1); p.fence(2, True); p.when(v, "v", 1, lambda: (p.rd(e), p.rd(d))); r.append(p)
        p = Prog("%sS_plain%d" % (pref, f)); p.vol = 3; d = p.var(); p.thread(); p.wr(d, 1); p.fence(f, True); p.vwr(1, 1); p.fence(f, True); p.vwr(2, 1); p.wr(d, 2); p.thread(); v = p.vrd(2); p.fence(14, True); u = p.vrd(1); p.when(u, "v", 1, lambda: p.rd(d)); r.append(p)
    for f in (2, 6, 14, 1):
        p = Prog("%sS_acq%d" % (pref, f)); d = p.var(); p.vol = 1; p.thread(); p.rd(d); v = p.vrd(1); p.fence(f, True); p.rd(d); p.thread(); p.wr(d, 1); p.fence(4, True); p.vwr(1, 1); r.append(p)
        p = Prog("%sS_ping%d" % (pref, f)); d = p.var(); p.vol = 2; p.thread(); p.rd(d); p.fence(4, True); p.vwr(1, 1); v = p.vrd(2); p.fence(f, True); p.when(v, "v", 1, lambda: p.rd(d)); p.thread(); u = p.vrd(1); p.fence(2, True); p.when(u, "v", 1, lambda: (p.wr(d, 1), p.fence(4, True), p.vwr(2, 1))); r.append(p)
    return r
