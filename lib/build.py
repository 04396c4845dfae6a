"""Builds harness executables from /repo's working tree, in a scratch directory."""
import threading, os, subprocess, concurrent.futures, sys, shutil, tempfile, atexit, hashlib
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NJ = int(os.environ.get("VERIF_JOBS", "8"))
_scratch = None
def scratch():
    global _scratch
    if not _scratch:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        if not os.environ.get("VERIF_KEEP"): atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        else: print("scratch", _scratch, file=sys.stderr)
    return _scratch
GXX = ["/usr/bin/g++"]; CLANG = ["/usr/bin/clang++-18"]
NOAT = ["-U__GCC_ATOMIC_%s_LOCK_FREE" % x for x in ("BOOL","CHAR","SHORT","INT","LONG","LLONG","CHAR16_T","CHAR32_T","WCHAR_T","POINTER","CHAR8_T")]
CONFIGS = {
    "gcc":   GXX + ["-std=gnu++17", "-O2", "-march=sandybridge"],
    "base":  GXX + ["-std=gnu++11", "-O2"],
    "cx16":  GXX + ["-std=gnu++20", "-O2", "-mcx16"],
    "clang": CLANG + ["-std=gnu++17", "-O2", "-march=sandybridge"],
    "arch":  GXX + ["-std=gnu++17", "-O2", "-march=sandybridge"] + NOAT,
    "old":   GXX + ["-std=gnu++11", "-O2", "-mcx16"] + NOAT + ["-U__GCC_ASM_FLAG_OUTPUTS__"],
    "oldax": GXX + ["-std=gnu++17", "-O2", "-march=sandybridge"] + NOAT + ["-U__GCC_ASM_FLAG_OUTPUTS__", "-DBOOST_ATOMIC_DETAIL_X86_NO_ASM_AX_DX_PAIRS"],
    "gen":   GXX + ["-std=gnu++14", "-O2", "-march=sandybridge", "-include", VERIF + "/harness/noarch.h"],
    "sync":  GXX + ["-std=gnu++17", "-O2", "-march=sandybridge"] + NOAT + ["-include", VERIF + "/harness/noarch.h"],
    "fb":    GXX + ["-std=gnu++17", "-O2", "-march=sandybridge", "-DBOOST_ATOMIC_FORCE_FALLBACK"],
    "cond":  GXX + ["-std=gnu++17", "-O2", "-march=sandybridge", "-include", VERIF + "/harness/nofutex.h"],
    "condcw":GXX + ["-std=gnu++17", "-O2", "-march=sandybridge", "-include", VERIF + "/harness/nofutex.h", "-DBOOST_ATOMIC_HAS_PTHREAD_COND_CLOCKWAIT"],
    "clangfb": CLANG + ["-std=gnu++17", "-O2", "-march=sandybridge", "-DBOOST_ATOMIC_FORCE_FALLBACK"],
}
# type id -> (registration template, C++ type)
def T(): 
    t = {}
    for b in (8, 16, 32, 64):
        t["i%d" % b] = ("int", {8: "signed char", 16: "short", 32: "int", 64: "long"}[b]); t["u%d" % b] = ("int", {8: "unsigned char", 16: "unsigned short", 32: "unsigned", 64: "unsigned long"}[b])
    t["ll"] = ("int", "long long"); t["ull"] = ("int", "unsigned long long"); t["ch"] = ("int", "char"); t["wc"] = ("int", "wchar_t"); t["c16"] = ("int", "char16_t")
    t["i128"] = ("int", "boost::int128_type"); t["u128"] = ("int", "boost::uint128_type")
    t["f32"] = ("fp", "float"); t["f64"] = ("fp", "double"); t["f80"] = ("fp", "long double")
    t["e8"] = ("enum", "h::E8"); t["e16"] = ("enum", "h::E16"); t["e32"] = ("enum", "h::E32"); t["e64"] = ("enum", "h::E64")
    t["pc"] = ("ptr", "char"); t["ps"] = ("ptr", "short"); t["pi"] = ("ptr", "int"); t["p12"] = ("ptr", "h::Blk<12>"); t["p24"] = ("ptr", "h::Blk<24>")
    t["pv"] = ("raw", "void*"); t["pf"] = ("raw", "h::fptr"); t["b"] = ("bool", "bool")
    for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 64): t["s%d" % n] = ("raw", "h::Blk<%d>" % n)
    t["n3"] = ("raw", "h::NDC<3>"); t["n8"] = ("raw", "h::NDC<8>"); t["n11"] = ("raw", "h::NDC<11>")
    t["p8"] = ("pad", "h::P8"); t["pd16"] = ("pad", "h::P16"); t["pd12"] = ("pad", "h::P12")
    t["flag"] = ("flag", "")
    return t
TYPES = T()
def reg(w, ty):
    k, c = TYPES[ty]
    if w == "K": return "h::reg_const<%s>(\"%s\", \"%s\", %s);" % (c + "*" if k == "ptr" else c, ty, {"enum": "int"}.get(k, k), "sizeof(%s)" % c if k == "ptr" else "0")
    if k == "flag": return {"A": "h::Flag<boost::atomic_flag,'A'>::reg();", "I": "h::Flag<boost::ipc_atomic_flag,'I'>::reg();", "V": "h::Flag<volatile boost::atomic_flag,'V'>::reg();"}[w]
    if k in ("int", "fp", "enum", "ptr"): return "h::reg_%s<h::W%s, %s>(\"%s\");" % (k, w, c, ty)
    return "h::reg_raw<h::W%s, %s>(\"%s\", \"%s\");" % (w, c, ty, k)
SIZES = {"ll": 8, "ull": 8, "ch": 1, "wc": 4, "c16": 2, "f32": 4, "f64": 8, "f80": 16, "pc": 8, "ps": 8, "pi": 8, "p12": 8, "p24": 8, "pv": 8, "pf": 8, "b": 1, "p8": 8, "pd16": 16, "pd12": 12, "flag": 4}
def sizeof(ty):
    if ty in SIZES: return SIZES[ty]
    n = int(ty[1:]); return n // 8 if ty[0] in "iue" else n
def native16(config): return config in ("gcc", "cx16", "clang", "arch", "sync", "old", "oldax")
def fallback(config): return config in ("fb", "clangfb")
def lock_free(w, ty, config):
    """the documented expectation for this platform; only used to know which ipc_ types exist"""
    if fallback(config): return False
    n = sizeof(ty)
    if w in "AIV":
        if ty == "flag": return True
        return n <= 16 if native16(config) else n <= 8
    return n in (1, 2, 4, 8) or (n == 16 and native16(config))
def valid(w, ty, config):
    if ty == "flag": return w in "AV" or (w == "I" and not fallback(config))
    if TYPES[ty][0] == "pad" and config in ("clang", "clangfb"): return False   # BOOST_ATOMIC_NO_CLEAR_PADDING: unsupported types
    if w == "U" and TYPES[ty][0] != "int": return False
    return w in "ARVUK" or lock_free(w, ty, config)
def weight(w, ty): return {"int": 10, "fp": 4, "enum": 5, "ptr": 5}.get(TYPES[ty][0], 2)
class BuildError(Exception): pass
def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout
_pool = None
def pool():
    global _pool
    if not _pool: _pool = concurrent.futures.ThreadPoolExecutor(NJ)
    return _pool
_elock = threading.Lock()
def engine():
    d = scratch(); so = d + "/libengine.so"
    with _elock:
        if not os.path.exists(so): sh(GXX + ["-std=c++17", "-O2", "-fPIC", "-shared", "-fno-builtin", "-fno-tree-loop-distribute-patterns", "-fno-stack-protector", "-o", so + ".tmp", VERIF + "/engine/engine.cpp", "-ldl"]); os.rename(so + ".tmp", so)
    return so
class Build:
    """One executable: objects are compiled in parallel on the shared pool; call finish() to link."""
    def __init__(self, name, config, types, main="conc", extra=(), per=22, srcs=None, lib=True, eng=True, simd=("SSE2", "SSE41")):
        self.name, self.eng, self.main, self.extra = name, eng, main, list(extra)
        types = [x for x in types if valid(x[0], x[1], config)]; self.types = types; self.config = config
        self.dir = os.path.join(scratch(), name); os.makedirs(self.dir, exist_ok=True)
        cfg = CONFIGS[config]; inc = ["-I" + REPO + "/include", "-I" + VERIF + "/harness", "-I" + VERIF + "/engine"]
        self.cxx = cfg[0]; jobs = []
        def cc(src, obj, flags): return pool().submit(sh, [x for x in cfg if not (src.startswith(REPO) and "FORCE_FALLBACK" in x)] + list(extra) + inc + flags + ["-w", "-c", src, "-o", obj])
        # types, grouped
        self.objs = []; groups = []; cur = []; wsum = 0
        for (w, ty) in sorted(types, key=lambda x: -weight(*x)):
            cur.append((w, ty)); wsum += weight(w, ty)
            if wsum >= per: groups.append(cur); cur = []; wsum = 0
        if cur: groups.append(cur)
        for i, g in enumerate(groups):
            src = "%s/tu%d.cpp" % (self.dir, i)
            with open(src, "w") as f:
                f.write('#include "ops.hpp"\nnamespace h { typedef void (*fptr)(); }\nnamespace { struct I { I() {\n' + "\n".join("%s" % reg(w, ty) for w, ty in g) + "\n} } i_; }\n")
            o = src[:-4] + ".o"; self.objs.append(o); jobs.append(cc(src, o, []))
        if lib:
            for s, fl in (("lock_pool", []), ("find_address_sse2", ["-msse2"]), ("find_address_sse41", ["-msse4.1"])):
                if s[-5:].upper() in ("_SSE2", "SSE41") and s.split("_")[-1].upper() not in simd: continue
                o = "%s/%s.o" % (self.dir, s); self.objs.append(o)
                jobs.append(cc("%s/src/%s.cpp" % (REPO, s), o, ["-I" + REPO + "/src", "-DBOOST_ATOMIC_SOURCE", "-DBOOST_ATOMIC_STATIC_LINK"] + ["-DBOOST_ATOMIC_USE_" + x for x in simd] + fl))
        for s in (srcs or [VERIF + "/harness/%s.cpp" % main]):
            o = "%s/%s.o" % (self.dir, os.path.basename(s)[:-4]); self.objs.append(o); jobs.append(cc(s, o, ["-include", "array"] ))
        if eng: self.ej = pool().submit(engine)
        self.jobs = jobs
    def finish(self):
        for j in self.jobs: j.result()
        exe = self.dir + "/" + self.main
        cmd = [self.cxx, "-no-pie", "-rdynamic", "-Wl,-z,now", "-o", exe] + self.objs
        if self.eng: so = self.ej.result(); cmd += [so, "-Wl,-rpath," + os.path.dirname(so)]
        sh(cmd + ["-lpthread"])
        self.exe = exe; self.tab = exe + ".tab"
        if self.eng: sh([sys.executable, VERIF + "/engine/mktable.py", exe, self.tab])
        return self
