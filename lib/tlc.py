"""Runs TLC on the committed specifications."""
import os, re, json, subprocess, concurrent.futures, time
from build import scratch, VERIF, NJ
SPEC = VERIF + "/spec"
class TlcError(Exception): pass
def tlc(spec, cfg=None, env=None, workers=1, timeout=800, extra=(), xmx="3g", dfs=False, tag=None, cwd=None):
    md = os.path.join(scratch(), "md-%s-%d" % (tag or spec, time.monotonic_ns()))
    e = dict(os.environ); e.update(env or {})
    jo = "-Xmx%s -XX:ParallelGCThreads=1 -XX:TieredStopAtLevel=4" % xmx if workers == 1 else "-Xmx%s" % xmx
    jo += " -Djava.io.tmpdir=" + scratch() + (" -DTLA-Library=" + SPEC if cwd else "")
    if dfs: jo += " -Dtlc2.tool.queue.IStateQueue=StateDeque"
    e["JAVA_TOOL_OPTIONS"] = jo
    cmd = ["tlc", "-workers", str(workers), "-config", cfg or spec + ".cfg", "-metadir", md, "-noGenerateSpecTE"] + list(extra) + [spec + ".tla"]
    try: p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x: raise TlcError("timeout: %s\n%s" % (spec, (x.stdout or b"")[-2000:]))
    finally: subprocess.run(["rm", "-rf", md])
    out = p.stdout
    m = re.findall(r"^(\d+) states generated, (\d+) distinct", out, re.M)
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return p.returncode, out, gen, dis
def shard(items, n, key=None):
    if key: items = sorted(items, key=key, reverse=True)
    return [x for x in (items[i::n] for i in range(n)) if x]
def trace_check(hists, spec="Trace", maxt=None, maxo=None, timeout=800, tag="t"):
    """hists: list of dicts (obj, nt, ev). Returns (set of (index, reached)), generated, distinct."""
    if not hists: return {}, 0, 0
    idx = list(range(len(hists))); sh = shard(idx, NJ, key=lambda i: len(hists[i]["ev"]) * 100 + hists[i]["nt"])
    def run(k):
        ids = sh[k]; f = os.path.join(scratch(), "%s-%d-%d.ndjson" % (tag, k, time.monotonic_ns()))
        mt = maxt or max(hists[i]["nt"] for i in ids); mo = maxo or max(len(hists[i]["obj"]) for i in ids)
        with open(f, "w") as o:
            for i in ids: h = hists[i]; o.write(json.dumps({k: h[k] for k in ("obj", "nt", "ev", "locks") if k in h}, separators=(",", ":")) + "\n")
        rc, out, g, d = tlc(spec, env={"HIST": f, "MAXT": str(mt), "MAXO": str(mo)}, dfs=True, timeout=timeout, tag=spec)
        os.unlink(f)
        m = re.search(r'<<\s*"REJECTED",\s*\{(.*?)\}\s*>>', out, re.S)
        if not m or "Model checking completed" not in out: raise TlcError("trace check failed\n" + out[-3000:])
        rej = {ids[int(a) - 1]: int(b) for a, b in re.findall(r"<<(\d+), (\d+)>>", m.group(1))}
        return rej, g, d
    rej = {}; g = d = 0
    with concurrent.futures.ThreadPoolExecutor(NJ) as ex:
        for r, a, b in ex.map(run, range(len(sh))): rej.update(r); g += a; d += b
    return rej, g, d
def seq_check(lines, timeout=800, spec="SeqCheck", whole=False):
    """lines: JSON texts of records. Returns (list of bad indices, generated, distinct)."""
    sh = [list(range(len(lines)))] if whole else shard(list(range(len(lines))), NJ)
    def run(k):
        ids = sh[k]; f = os.path.join(scratch(), "rec-%d-%d.ndjson" % (k, time.monotonic_ns()))
        with open(f, "w") as o: o.write("".join(lines[i] + "\n" for i in ids))
        rc, out, g, d = tlc(spec, env={"RECS": f}, timeout=timeout)
        os.unlink(f)
        m = re.search(r'<<"CHECKED", (\d+), (\d+)>>', out)
        if not m or m.group(1) != m.group(2) or int(m.group(2)) != len(ids): raise TlcError("record check failed\n" + out[-3000:])
        return [ids[int(x) - 1] for x in re.findall(r'<<"BAD", (\d+)>>', out)], g, d
    bad = []; g = d = 0
    with concurrent.futures.ThreadPoolExecutor(NJ) as ex:
        for b, x, y in ex.map(run, range(len(sh))): bad += b; g += x; d += y
    return sorted(bad), g, d
