// Concurrent harness: runs scenarios (text, see lib/scen.py) on the real library under the engine, explores schedules and
// prints every distinct history as one JSON line.
#include "call.hpp"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <fstream>
unsigned long h_stepmask = 0;
struct SCall { std::string op, lop; const OpDef* d; int o; Call c; int rep; };
struct SObj { const TypeDef* t; int blk; unsigned off; int canon; unsigned char init[128]; };
struct SBlk { unsigned size, align; int map2; unsigned char* base[2]; };
struct SThread { int proc, view; std::vector<SCall> calls; };
struct Scen {
    std::string id; std::vector<SBlk> blks; std::vector<SObj> objs; std::vector<SThread> thr; std::map<std::string, double> opt; std::vector<int> order; std::vector<std::vector<int>> slices;
    double o(const char* k, double d) const { auto i = opt.find(k); return i == opt.end() ? d : i->second; }
};
static Scen* S;

static void unhex(const std::string& s, unsigned char* d) { if (s == "-") return; for (size_t i = 0; i + 1 < s.size() && i / 2 < 128; i += 2) d[i / 2] = (unsigned char)strtol(s.substr(i, 2).c_str(), 0, 16); }
static char* putbytes(char* q, const unsigned char* v, unsigned n) { *q++ = '['; for (unsigned i = 0; i < n; ++i) { if (i) *q++ = ','; unsigned x = v[i]; if (x >= 100) *q++ = '0' + x / 100; if (x >= 10) *q++ = '0' + x / 10 % 10; *q++ = '0' + x % 10; } *q++ = ']'; *q = 0; return q; }
static char* putval(char* q, const TypeDef* t, const unsigned char* v, bool diff = false) {
    if (t->kind[0] == 'f' && t->kind[1] == 'p') {
        long double x; if (t->n == 4) { float y; memcpy(&y, v, 4); x = y; } else if (t->n == 8) { double y; memcpy(&y, v, 8); x = y; } else { memset(&x, 0, sizeof x); memcpy(&x, v, 10); }
        if (x == x && x > -1e6L && x < 1e6L && x == (long double)(long)x && !(x == 0 && std::signbit(x))) { q += sprintf(q, "[%ld]", (long)x); return q; }
        *q++ = '['; *q++ = '-'; *q++ = '1'; *q++ = ','; q = putbytes(q, v, t->n); *q++ = ']'; *q = 0; return q;
    }
    return putbytes(q, v, diff ? (t->kind[0] == 'p' ? 8 : t->n) : t->n);
}
static void log_call(int tid, const SCall& s, const TypeDef* t) {
    char b[2048]; char* q = b; const OpDef& d = *s.d;
    q += sprintf(q, "{\"k\":\"c\",\"t\":%d,\"o\":%d,\"op\":\"%s\",\"a\":", tid, S->objs[s.o - 1].canon, d.name);
    if (d.args & A_BIT) q += sprintf(q, "[%d]", (int)s.c.a[0]); else if ((d.args & A_A) || d.var[0] == 'k') q = putval(q, t, s.c.a, d.args & A_DIFF); else q += sprintf(q, "[]");
    q += sprintf(q, ",\"b\":"); if (d.args & A_B) q = putval(q, t, s.c.b); else q += sprintf(q, "[]");
    if (!strcmp(d.name, "twait")) {
        timespec dl; int clk = s.c.clk;
        if (d.var[1] == 'f') { clk = CLOCK_MONOTONIC; eng_now(clk, &dl); dl.tv_sec += s.c.sec; dl.tv_nsec += s.c.nsec; if (dl.tv_nsec >= 1000000000) { dl.tv_nsec -= 1000000000; ++dl.tv_sec; } if (dl.tv_nsec < 0) { dl.tv_nsec += 1000000000; --dl.tv_sec; } }
        else { dl.tv_sec = s.c.sec; dl.tv_nsec = s.c.nsec; if (!strcmp(d.var, "wu_zero") && dl.tv_sec >= 9000000000l) dl.tv_sec = 9223372036l + 1001, dl.tv_nsec = 354775807; }
        eng_deadline(clk, dl.tv_sec, dl.tv_nsec);
        char w[64]; eng_fmt_time(w, dl.tv_sec, dl.tv_nsec); q += sprintf(q, ",\"d\":%s,\"ck\":%d", w, clk == CLOCK_MONOTONIC ? 1 : clk == CLOCK_REALTIME ? 2 : 3);
    }
    if (strstr(d.name, "wait")) eng_waits(1);
    eng_ev("%s}", b);
}
static void log_ret(int tid, SCall& s, const TypeDef* t) {
    char b[2048]; char* q = b; const OpDef& d = *s.d;
    q += sprintf(q, "{\"k\":\"r\",\"t\":%d,\"v\":", tid);
    if (d.ret & R_V) q = putval(q, t, s.c.v); else q += sprintf(q, "[]");
    eng_deadline(-1, 0, 0);
    eng_ev("%s,\"f\":%d}", b, d.ret & R_F ? s.c.f : 2);
    if (strstr(d.name, "wait") && eng_waits(-1) == 0) eng_settle();
}
static void log_live() { eng_ev("{\"k\":\"live\",\"n\":%ld,\"b\":%ld,\"u\":%ld}", eng_live_blocks(), eng_live_bytes(), eng_total_blocks()); }
static void run_call(int tid, SThread& th, SCall& s) {
    if (s.op[0] == '@') {
        eng_gate();
        if (s.op == "@sleep") { eng_sleep_until(s.c.clk, s.c.sec, s.c.nsec); return; }
        if (s.op == "@live") { log_live(); return; }
        if (s.op == "@exit") { eng_ev("{\"k\":\"exit\",\"reg\":%d}", eng_settled() > 0); void (*f)(void*); void* x; while (eng_next_exit_handler(&f, &x)) { H_ON(); f(x); H_OFF(); } eng_ev("{\"k\":\"exited\"}"); return; }
        if (s.op == "@failalloc") { eng_fail_alloc(s.c.sec, s.c.nsec); return; }
        return;
    }
    SObj& o = S->objs[s.o - 1]; SBlk& b = S->blks[o.blk];
    void* p = b.base[b.map2 ? th.view : 0] + o.off;
    for (int r = 0; r < s.rep; ++r) {
        Call saved = s.c; if (s.d->ret & R_V) memset(s.c.v, 0x77, sizeof s.c.v);
        eng_gate();
        log_call(tid, s, o.t); eng_window(1);
        h_dirty(); s.d->fn(p, s.c);
        eng_window(0); log_ret(tid, s, o.t);
        unsigned char v[128]; memcpy(v, s.c.v, 128); s.c = saved; memcpy(s.c.v, v, 128);
    }
}
static void fiber(void* a) {
    int i = (int)(long)a; SThread& th = S->thr[i];
    // calls are copied to the fiber's stack: operands must not be scheduling points or process-private data
    for (size_t k = 0; k < th.calls.size(); ++k) { SCall c = th.calls[k]; run_call(eng_tid(), th, c); }
    if (eng_shared_inc() == (int)S->thr.size()) { // last one: look at every object once more
        for (size_t j = 0; j < S->objs.size(); ++j) { SObj& o = S->objs[j]; if (o.canon != (int)j + 1) continue; SCall c; c.op = "load"; c.o = (int)j + 1; c.rep = 1; memset(&c.c, 0, sizeof c.c); c.c.mo = 14; for (auto& d : o.t->ops) if ((!strcmp(d.name, "load") || !strcmp(d.name, "test")) && !d.var[0]) c.d = &d; run_call(eng_tid(), th, c); }
        if (S->o("mem", 0)) log_live();
    }
}
static void setup(void*) {
    h_stepmask = 0x100;
    for (auto& b : S->blks) {
        if (b.map2 == 2) b.base[0] = b.base[1] = (unsigned char*)eng_far(b.size);
        else if (b.map2) { void* s; b.base[0] = (unsigned char*)eng_map2(b.size, &s); b.base[1] = (unsigned char*)s; }
        else b.base[0] = (unsigned char*)eng_alloc(b.size, b.align);
        memset(b.base[0], 0x99, b.size);
    }
    unsigned long m = h_stepmask; h_stepmask = 0;
    for (size_t i = 0; i < S->objs.size(); ++i) { auto& o = S->objs[i]; SBlk& b = S->blks[o.blk]; if (o.canon == (int)i + 1) { h_dirty(); o.t->make(b.base[0] + o.off, o.init); } }
    h_stepmask = m;
    for (auto& o : S->objs) { SBlk& b = S->blks[o.blk]; if (!b.map2 && o.canon == int(&o - &S->objs[0]) + 1) eng_object(b.base[0] + o.off, o.t->size, o.t->lock_free); }
    for (size_t i = 0; i < S->thr.size(); ++i) eng_spawn(fiber, (void*)(long)i, S->thr[i].proc, 0);
}
static eng_result* R;
static auto& seen = *new std::unordered_set<std::string>; // never destroyed: nothing of the harness runs at exit
static long nruns, ndup; static long total_points, maxpts; static double tlimit; static std::string& head = *new std::string;
static double nowd() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double t0;
static int nbroken, allbroken; static double stop_at; static bool over() { return nbroken >= 3 || allbroken >= 8 || stop_at > 0 && nowd() > stop_at || tlimit > 0 && nowd() - t0 > tlimit; }
static int one(const char* how) {
    int st = eng_run(setup, 0); ++nruns; total_points += R->points; if (R->points > maxpts) maxpts = R->points;
    if (st == ST_STUCK || st == ST_CRASH) ++nbroken, ++allbroken; if (st == ST_OVERFLOW) { fprintf(stderr, "overflow in %s\n", S->id.c_str()); exit(4); }
    // canonical form: adjacent calls (and adjacent returns) commute
    std::vector<std::string> ls; { char* p = R->log; char* e = p + R->len; while (p < e) { char* n = (char*)memchr(p, '\n', e - p); if (!n) n = e; ls.emplace_back(p, n - p); p = n + 1; } }
    for (size_t i = 0; i < ls.size();) { size_t j = i; char k = ls[i].size() > 6 ? ls[i][6] : 0; auto kind = [&](const std::string& s) { return s.compare(0, 7, "{\"k\":\"c") == 0 && s[7] == '"' ? 1 : s.compare(0, 7, "{\"k\":\"r") == 0 && s[7] == '"' ? 2 : 0; }; int kk = kind(ls[i]); (void)k; if (!kk) { ++i; continue; } while (j < ls.size() && kind(ls[j]) == kk) ++j; std::sort(ls.begin() + i, ls.begin() + j); i = j; }
    std::string ev; for (auto& l : ls) { if (!ev.empty()) ev += ','; ev += l; }
    if (!seen.insert(ev).second) { ++ndup; return st; }
    char plan[512]; int n = snprintf(plan, sizeof plan, "%s m%d perm%u seed%u", how, eng_o.mode, eng_o.perm, eng_o.seed); for (int i = 0; i < eng_o.nplan; ++i) n += snprintf(plan + n, sizeof plan - n, " %ld>%d", eng_o.plan[i].idx, eng_o.plan[i].tid); if (eng_o.suspend_tid) n += snprintf(plan + n, sizeof plan - n, " z%d@%ld", eng_o.suspend_tid, eng_o.suspend_pt); if (eng_o.step_pt) snprintf(plan + n, sizeof plan - n, " step%ld@%ld", eng_o.step_delta_s, eng_o.step_pt);
    printf("{%s,\"how\":\"%s\",\"st\":%d,\"ev\":[%s]}\n", head.c_str(), plan, st, ev.c_str());
    return st;
}
static void returns(int i) { // what each call returned in the last execution
    printf("{\"guided\":%d,\"s\":\"%s\",\"r\":[", i, S->id.c_str()); bool c = false;
    for (char* p = R->log, *e = p + R->len; p < e;) { char* n = (char*)memchr(p, '\n', e - p); if (!n) n = e; if (n - p > 8 && !memcmp(p, "{\"k\":\"r\"", 8)) { printf("%s%.*s", c ? "," : "", (int)(n - p), p); c = true; } p = n + 1; }
    printf("]}\n");
}
static void reset() { memset(&eng_o, 0, sizeof eng_o); eng_o.psw = S->o("psw", 0.3); eng_o.pintr = S->o("pintr", 0); eng_o.pspur = S->o("pspur", 0); eng_o.nosys = (int)S->o("nosys", 0); eng_o.nap = (int)S->o("nap", 0); eng_o.maxpoints = (long)S->o("maxpoints", 60000); eng_o.seed = (unsigned)S->o("seed", 1); if (!S->order.empty()) { eng_o.order = S->order.data(); eng_o.norder = (int)S->order.size(); } }
static uint64_t rs; static unsigned rr(unsigned n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)((rs >> 20) % (n ? n : 1)); }
static void explore() {
    seen.clear(); t0 = nowd(); nruns = ndup = 0; nbroken = 0; total_points = maxpts = 0;
    rs = 0x9E3779B97F4A7C15ull * (uint64_t)(S->o("seed", 1) + 1) ^ 0x1234567; for (int i = 0; i < 8; ++i) rr(2);
    tlimit = S->o("tlimit", 0);
    int n = (int)S->thr.size(); int nperm = 1; for (int i = 2; i <= n && n <= 5; ++i) nperm *= i; if (n > 5) nperm = n;
    int maxperm = (int)S->o("perms", 6); long npts = 0; std::vector<std::vector<long>> tp; std::vector<long> pp; std::vector<int> perms;
    for (int i = 0; i < nperm; ++i) perms.push_back(i);
    for (int i = nperm - 1; i > 0; --i) std::swap(perms[i], perms[rr(i + 1)]);
    if ((int)perms.size() > maxperm) perms.resize(maxperm);
    for (int p : perms) { if (over()) break; reset(); eng_o.perm = p; one("base"); pp.push_back(R->points); npts = std::max(npts, R->points); tp.emplace_back(R->tpoints, R->tpoints + 64); }
    perms.resize(pp.size()); if (perms.empty()) return;
    long c1 = (long)S->o("c1", 1000000);
    { std::vector<std::array<long, 3>> all; for (size_t i = 0; i < perms.size(); ++i) for (long x = 0; x < pp[i]; ++x) for (int t = 1; t <= n; ++t) all.push_back({(long)i, x, t});
      bool sample = (long)all.size() > c1; long lim = sample ? c1 : (long)all.size();
      for (long k = 0; k < lim && !over(); ++k) { if (sample) std::swap(all[k], all[k + rr((unsigned)(all.size() - k))]); reset(); eng_o.perm = perms[all[k][0]]; eng_o.nplan = 1; eng_o.plan[0].idx = all[k][1]; eng_o.plan[0].tid = (int)all[k][2]; one("c1"); } }
    for (long k = 0; k < (long)S->o("c2", 0) && !over(); ++k) { reset(); int i = rr((unsigned)perms.size()); eng_o.perm = perms[i]; int np = 2 + rr(2); long lim = pp[i] + 5; std::vector<long> xs; for (int j = 0; j < np; ++j) xs.push_back(rr((unsigned)lim)); std::sort(xs.begin(), xs.end()); eng_o.nplan = np; for (int j = 0; j < np; ++j) { eng_o.plan[j].idx = xs[j]; eng_o.plan[j].tid = 1 + rr(n); } one("c2"); }
    for (long k = 0; k < (long)S->o("rnd", 0) && !over(); ++k) { reset(); eng_o.mode = 1; eng_o.seed = rr(1u << 30); double ps[4] = { 0.05, 0.2, 0.5, 0.9 }; eng_o.psw = ps[k % 4]; eng_o.ptime = (k & 1) ? S->o("ptime", 0) : 0; if (S->o("step", 0) != 0 && rr(2)) { eng_o.step_pt = 1 + rr((unsigned)npts); eng_o.step_delta_s = (long)S->o("step", 0) * ((rr(2)) ? 1 : -1); } one("rnd"); }
    for (long k = 0; k < (long)S->o("pct", 0) && !over(); ++k) { reset(); eng_o.mode = 2; eng_o.seed = rr(1u << 30); eng_o.depth = 1 + (int)(k % 4); eng_o.npoints = npts; eng_o.ptime = (k % 3 == 1) ? S->o("ptime", 0) : 0; one("pct"); }
    for (long k = 0; k < (long)S->o("crnd", 0) && !over(); ++k) { reset(); eng_o.mode = 1; eng_o.coarse = 1; eng_o.seed = rr(1u << 30); double ps[4] = { 1, 0.7, 0.4, 0.85 }; eng_o.psw = ps[k % 4]; eng_o.ptime = (k % 3 == 2) ? S->o("ptime", 0) : 0; one("crnd"); }
    for (long k = 0; k < (long)S->o("cpct", 0) && !over(); ++k) { reset(); eng_o.mode = 2; eng_o.coarse = 1; eng_o.seed = rr(1u << 30); eng_o.depth = 2 + (int)(k % 5); eng_o.npoints = npts; one("cpct"); }
    for (auto& v : S->slices) { if (over()) break; reset(); eng_o.mode = 3; eng_o.tsec = (long)S->o("tsec", 0); eng_o.tnsec = (long)S->o("tnsec", 0); eng_o.slices = v.data(); eng_o.nslices = (int)v.size(); one("guided"); returns((int)(&v - &S->slices[0])); }
    long sus = (long)S->o("suspend", 0);
    if (sus) { std::vector<std::array<long, 3>> all; for (size_t i = 0; i < perms.size(); ++i) for (int t = 1; t <= n; ++t) for (long x = 1; x <= tp[i][t]; ++x) all.push_back({(long)i, t, x});
        bool sample = (long)all.size() > sus; long lim = sample ? sus : (long)all.size();
        for (long k = 0; k < lim && !over(); ++k) { if (sample) std::swap(all[k], all[k + rr((unsigned)(all.size() - k))]); reset(); eng_o.perm = perms[all[k][0]]; eng_o.suspend_tid = (int)all[k][1]; eng_o.suspend_pt = all[k][2]; if (k % 3 == 2) { eng_o.mode = 1; eng_o.seed = rr(1u << 30); eng_o.psw = 0.4; } one("sus"); } }
    printf("{\"stat\":1,\"s\":\"%s\",\"runs\":%ld,\"uniq\":%zu,\"points\":%ld,\"maxpoints\":%ld,\"cut\":%d,\"wall\":%.3f}\n", S->id.c_str(), nruns, seen.size(), total_points, maxpts, over() ? 1 : 0, nowd() - t0);
    fflush(stdout);
}
static void make_head() {
    char b[512]; head = "\"s\":\"" + S->id + "\",\"nt\":" + std::to_string(S->thr.size()) + ",\"obj\":[";
    for (size_t i = 0; i < S->objs.size(); ++i) { auto& o = S->objs[i]; char* q = b + sprintf(b, "%s{\"ty\":\"%c%s\",\"kd\":\"%s\",\"es\":%u,\"lf\":%d,\"nw\":%d,\"iv\":", i ? "," : "", o.t->wrap, o.t->id.c_str(), o.t->kind, o.t->es, o.t->lock_free, o.t->native_wait); q = putval(q, o.t, o.init); *q++ = '}'; *q = 0; head += b; }
    head += "]";
}
int main(int argc, char** argv) {
    if (argc < 2) return 3;
    if (!strcmp(argv[1], "--types")) {
        for (auto& t : types()) { const TypeDef& d = t.second; printf("{\"ty\":\"%s\",\"kd\":\"%s\",\"n\":%u,\"size\":%u,\"align\":%u,\"es\":%u,\"sgn\":%d,\"lf\":%d,\"nw\":%d,\"ops\":[", t.first.c_str(), d.kind, d.n, d.size, d.align, d.es, d.sgn, d.lock_free, d.native_wait);
            bool c = false; for (auto& o : d.ops) { printf("%s[\"%s\",\"%s\",%d,%d,%d,%ld]", c ? "," : "", o.name, o.var, o.args, o.ord, o.ret, o.kconst); c = true; } printf("]}\n"); }
        return 0; }
    if (argc > 2) stop_at = atof(argv[2]);
    R = eng_init(argv[1], 4 << 20);
    std::string line; Scen* s = nullptr; std::istream& in = std::cin;
    while (std::getline(in, line)) {
        std::istringstream is(line); std::string w; if (!(is >> w)) continue;
        if (w == "scenario") { delete s; s = new Scen; is >> s->id; }
        else if (w == "opt") { std::string kv; while (is >> kv) { size_t e = kv.find('='); s->opt[kv.substr(0, e)] = atof(kv.c_str() + e + 1); } }
        else if (w == "blk") { SBlk b = {}; is >> b.size >> b.align >> b.map2; s->blks.push_back(b); }
        else if (w == "obj") { SObj o; memset(&o, 0, sizeof o); std::string ty, hx; is >> ty >> o.blk >> o.off >> hx; auto t = types().find(ty); if (t == types().end()) { fprintf(stderr, "no type %s\n", ty.c_str()); return 3; } o.t = &t->second; unhex(hx, o.init); o.canon = (int)s->objs.size() + 1; for (size_t i = 0; i < s->objs.size(); ++i) if (s->objs[i].blk == o.blk && s->objs[i].off == o.off) { o.canon = (int)i + 1; break; } s->objs.push_back(o); }
        else if (w == "thread") { SThread t; t.proc = t.view = 0; is >> t.proc >> t.view; s->thr.push_back(t); }
        else if (w == "slices") { std::vector<int> v; int x; while (is >> x) v.push_back(x); s->slices.push_back(v); }
        else if (w == "order") { int x; while (is >> x) s->order.push_back(x); }
        else if (w == "call") {
            SCall c; memset(&c.c, 0, sizeof c.c); c.rep = 1; c.d = nullptr; std::string ah, bh; is >> c.op >> c.o >> c.c.mo >> c.c.mo2 >> ah >> bh; unhex(ah, c.c.a); unhex(bh, c.c.b); is >> c.c.clk >> c.c.sec >> c.c.nsec; if (!(is >> c.rep)) c.rep = 1;
            if (c.op[0] != '@') {
                const TypeDef* t = s->objs[c.o - 1].t; std::string nm = c.op, var, k; size_t e = nm.find(':'); if (e != std::string::npos) { var = nm.substr(e + 1); nm = nm.substr(0, e); size_t e2 = var.find(':'); if (e2 != std::string::npos) { k = var.substr(e2 + 1); var = var.substr(0, e2); } }
                for (auto& d : t->ops) if (nm == d.name && var == d.var && (k.empty() || atol(k.c_str()) == d.kconst)) { c.d = &d; break; }
                if (!c.d) { fprintf(stderr, "no op %s for %c%s\n", c.op.c_str(), t->wrap, t->id.c_str()); return 3; }
                if (c.d->var[0] == 'k') { if (c.d->args & A_BIT) c.c.a[0] = (unsigned char)c.d->kconst; else { long kk = c.d->kconst; memset(c.c.a, kk < 0 ? 0xff : 0, 128); memcpy(c.c.a, &kk, 8); } }
            }
            s->thr.back().calls.push_back(c);
        }
        else if (w == "end") { S = s; make_head(); explore(); }
    }
    return 0;
}
std::map<std::string, TypeDef>& types() { static auto& m = *new std::map<std::string, TypeDef>; return m; }
