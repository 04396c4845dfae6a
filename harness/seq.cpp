// Sequential harness: applies every operation instance (type x wrapper x operand form x memory order) to many operands and
// prints the distinct (operation, value before, operands) -> outcome records.
#include "call.hpp"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <set>
#include <functional>
#include <csignal>
#include <unistd.h>
#include <sys/time.h>
unsigned long h_stepmask = 0;
typedef std::string B; // bytes
static uint64_t rs = 88172645463325252ull; static unsigned rr() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 24); }
static std::map<std::string, std::map<std::string, std::string>> recs; // key -> outcome -> example
static long ncalls, nfn;
alignas(64) static unsigned char buf[512];
static int rmw_orders[] = { 0, 1, 2, 4, 6, 14 }, load_orders[] = { 0, 1, 2, 14 }, store_orders[] = { 0, 4, 14 };
static std::string js(const B& b) { std::string s = "["; for (size_t i = 0; i < b.size(); ++i) { if (i) s += ','; s += std::to_string((unsigned char)b[i]); } return s + "]"; }
static B bytes(const unsigned char* p, unsigned n) { return B((const char*)p, n); }
static bool isnan_(const TypeDef& t, const B& b) { if (t.n == 4) { float y; memcpy(&y, b.data(), 4); return y != y; } if (t.n == 8) { double y; memcpy(&y, b.data(), 8); return y != y; } long double x = 0; memcpy(&x, b.data(), 10); return x != x; }
static B canon(const TypeDef& t, const B& b) { if (!isnan_(t, b)) return b; B r(t.n, '\0'); if (t.n == 4) { float y = __builtin_nanf(""); memcpy(&r[0], &y, 4); } else if (t.n == 8) { double y = __builtin_nan(""); memcpy(&r[0], &y, 8); } else { long double y = __builtin_nanl(""); memcpy(&r[0], &y, 10); } return r; }
static const bool no_clear_padding =
#ifdef H_NO_CLEAR_PADDING
    true;
#else
    false;
#endif
static const TypeDef* cur_t; static const OpDef* cur_d; static const B *cur_x, *cur_a, *cur_b; static int cur_mo, cur_mo2; static volatile bool in_call; static long tick_calls = -1;
// an operation that does not return (a crash, or no progress for ten seconds of processor time) has no outcome the specification allows
static void no_outcome(int sig) {
    if (sig == SIGVTALRM) { if (!in_call || tick_calls != ncalls) { tick_calls = ncalls; return; } }
    if (!cur_t || !in_call) { signal(sig, SIG_DFL); raise(sig); return; }
    std::string o = std::string("{\"kd\":\"") + cur_t->kind + "\",\"es\":" + std::to_string(cur_t->es) + ",\"op\":\"" + cur_d->name + "\",\"x\":" + js(*cur_x) + ",\"a\":" + js(*cur_a) + ",\"b\":" + js(*cur_b) + ",\"sig\":" + std::to_string(sig) + ",\"ex\":\"" + cur_t->wrap + cur_t->id + "." + cur_d->name + ":" + cur_d->var + " mo=" + std::to_string(cur_mo) + "," + std::to_string(cur_mo2) + "\"}\n";
    fprintf(stderr, "NOOUTCOME %s", o.c_str()); fflush(stderr); _exit(77);
}
static void call1(const TypeDef& t, const OpDef& d, const B& x, const B& a, const B& b, int mo, int mo2, unsigned offset) {
    ++ncalls;
    bool fp = !strcmp(t.kind, "fp"), arith = fp && (strstr(d.name, "add") || strstr(d.name, "sub") || strstr(d.name, "neg") || strstr(d.name, "eq"));
    memset(buf, 0xEE, sizeof buf);
    unsigned char* p = buf + 128 + offset;
    if (((uintptr_t)p) % t.align) return;
    unsigned char xi[128] = {}; memcpy(xi, x.data(), x.size());
    cur_t = &t; cur_d = &d; cur_x = &x; cur_a = &a; cur_b = &b; cur_mo = mo; cur_mo2 = mo2; in_call = true;
    h_dirty(); t.make(p, xi);
    Call c; memset(&c, 0, sizeof c); memset(c.v, 0x77, sizeof c.v); c.mo = mo; c.mo2 = mo2;
    memcpy(c.a, a.data(), a.size()); memcpy(c.b, b.data(), b.size());
    if (d.var[0] == 'k') { if (d.args & A_BIT) c.a[0] = (unsigned char)d.kconst; else { long kk = d.kconst; memset(c.a, kk < 0 ? 0xff : 0, sizeof c.a); memcpy(c.a, &kk, 8); } }
    h_dirty(); d.fn(p, c);
    if (no_clear_padding && t.kind[0] == 'p' && t.kind[1] == 'a' && !strncmp(d.name, "cas", 3) && c.f == 0 && bytes(c.v, t.n) == x && x == a) { // padding may differ once: retry with the value reported
        memcpy(c.a, c.v, sizeof c.a); d.fn(p, c); }
    bool guard = true; for (unsigned i = 0; i < sizeof buf; ++i) if ((buf + i < p || buf + i >= p + t.size) && buf[i] != 0xEE) guard = false;
    Call l; memset(&l, 0, sizeof l); memset(l.v, 0x77, sizeof l.v); l.mo = 14; for (auto& o : t.ops) if ((!strcmp(o.name, "load") || !strcmp(o.name, "test")) && !o.var[0]) { o.fn(p, l); break; }
    in_call = false;
    if (t.kind[0] == 'f' && t.kind[1] == 'l') l.v[0] = (unsigned char)l.f;
    B post = bytes(l.v, t.n), ret = d.ret & R_V ? bytes(c.v, t.n) : B(); int f = d.ret & R_F ? c.f : 2;
    unsigned an = d.args & A_BIT ? 1 : d.args & A_DIFF ? (t.kind[0] == 'p' && t.kind[1] == 't' ? 8 : t.n) : d.args & A_A ? t.n : 0;
    std::string h;
    const char* nm = d.name;
    if (arith) { unsigned char out[16] = {}; const char* o = strstr(nm, "neg") ? "neg" : (strstr(nm, "sub") || strstr(nm, "minus")) ? "-" : "+"; t.hw(o, xi, c.a, out); 
        bool newform = !(strncmp(nm, "fetch", 5) == 0); B hv = canon(t, bytes(out, t.n)); post = canon(t, post); if (newform && ret.size()) ret = canon(t, ret); h = js(hv); }
    if (fp && arith && !strncmp(nm, "fetch", 5)) { /* old value: exact */ }
    std::string key = std::string("\"kd\":\"") + (t.kind[0] == 'p' && t.kind[1] == 'a' ? "raw" : t.kind) + "\",\"es\":" + std::to_string(t.es) + ",\"op\":\"" + nm + "\",\"x\":" + js(x) + ",\"a\":" + js(an ? bytes(d.var[0] == 'k' || true ? (an ? (const unsigned char*)(d.args ? (d.var[0] == 'k' ? c.a : (const unsigned char*)a.data()) : c.a) : c.a) : c.a, an) : B()) + ",\"b\":" + js(d.args & A_B ? bytes((const unsigned char*)b.data(), t.n) : B()) + ",\"h\":" + (h.empty() ? "[]" : h);
    std::string out = "{\"p\":" + js(post) + ",\"v\":" + js(ret) + ",\"f\":" + std::to_string(f) + ",\"g\":" + (guard ? "1" : "0") + "}";
    auto& m = recs[key]; if (!m.count(out)) m[out] = std::string(1, t.wrap) + t.id + "." + d.name + (d.var[0] ? ":" : "") + d.var + " mo=" + std::to_string(mo) + "," + std::to_string(mo2);
}
static B pat(unsigned n, std::initializer_list<int> v, int fill) { B b(n, (char)fill); unsigned i = 0; for (int x : v) { if (i < n) b[i++] = (char)x; } return b; }
static std::vector<B> ints(unsigned n, int nr) {
    std::set<B> s; std::vector<B> r;
    auto add = [&](B b) { if (s.insert(b).second) r.push_back(b); };
    add(pat(n, {0}, 0)); add(pat(n, {1}, 0)); add(B(n, '\xff')); { B b(n, 0); b[n - 1] = '\x80'; add(b); } { B b(n, '\xff'); b[n - 1] = '\x7f'; add(b); }
    add(pat(n, {2}, 0)); add(pat(n, {0xfe}, 0xff)); add(pat(n, {0x80}, 0)); add(pat(n, {0xff}, 0)); add(pat(n, {0x55}, 0x55)); add(pat(n, {0xaa}, 0xaa)); add(pat(n, {0x7f}, 0xff));
    { B b(n, 0); b[n - 1] = 1; add(b); } { B b(n, 0); b[n / 2] = 1; add(b); } { B b(n, '\xff'); b[0] = 0; add(b); } { B b(n, '\xff'); b[n / 2] = '\x7f'; add(b); } { B b(n, 0); b[n - 1] = '\x80'; b[0] = 1; add(b); }
    for (int k = 0; k < nr; ++k) { B b(n, 0); for (auto& c : b) c = (char)rr(); add(b); }
    return r;
}
template <class T> static void fpv(std::vector<B>& r, unsigned n, int nr) {
    typedef std::numeric_limits<T> L; T v[] = { T(0), -T(0), T(1), T(-1), T(0.1L), T(3), T(1e10), L::min(), L::denorm_min(), -L::denorm_min(), L::max(), -L::max(), L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN(), L::epsilon(), T(1) + L::epsilon(), T(0.5), T(16777217.0) };
    for (T x : v) { unsigned char b[16] = {}; memcpy(b, &x, n); r.push_back(bytes(b, n)); }
    { T x = L::quiet_NaN(); unsigned char b[16] = {}; memcpy(b, &x, n); b[0] = 0x5; r.push_back(bytes(b, n)); }
    for (int k = 0; k < nr; ++k) { T x = std::ldexp((T)((double)rr() / 65536.0 - 100.0), (int)(rr() % 60) - 30); unsigned char b[16] = {}; memcpy(b, &x, n); r.push_back(bytes(b, n)); }
}
static void each_order(const OpDef& d, long k, std::function<void(int, int)> f) {
    bool all = k < 2;
    auto go = [&](int* o, int n) { if (all) for (int i = 0; i < n; ++i) f(o[i], 14); else f(o[k % n], 14); };
    switch (d.ord) { case O_RMW: go(rmw_orders, 6); break; case O_LOAD: go(load_orders, 4); break; case O_STORE: go(store_orders, 3); break; case O_NONE: f(14, 14); break;
    case O_CAS: for (int i = 0; i < 6; ++i) for (int j = 0; j < 4; ++j) { if (load_orders[j] > rmw_orders[i] || (rmw_orders[i] == 4 && load_orders[j] > 0)) continue; /* failure order not stronger than success order */ if (!(load_orders[j] == 0 || (load_orders[j] & rmw_orders[i]) == load_orders[j])) continue; if (all || (k % 24) == i * 4 + j) f(rmw_orders[i], load_orders[j]); } if (!all) f(14, 14); break; }
}
int main(int argc, char** argv) {
    int seed = argc > 1 ? atoi(argv[1]) : 1, nr = argc > 2 ? atoi(argv[2]) : 3; std::string only = argc > 3 ? argv[3] : "";
    for (int sg : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGVTALRM }) signal(sg, no_outcome);
    { itimerval it = { { 10, 0 }, { 10, 0 } }; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
    for (auto& te : types()) {
        TypeDef& t = te.second; if (!only.empty() && std::string(",") .append(only).append(",").find("," + std::string(t.kind) + ",") == std::string::npos) continue;
        rs = 0x9E3779B97F4A7C15ull * (seed + 1) + t.n * 77 + t.es * 131; for (int i = 0; i < 8; ++i) rr(); // same operands for every wrapper of a size: records coincide
        std::vector<B> vals; std::string kd = t.kind; unsigned off = 0;
        if (kd == "int") vals = ints(t.n, nr);
        else if (kd == "raw" || kd == "pad") { vals = ints(t.n, nr); if (vals.size() > 9) vals.resize(9); }
        else if (kd == "bool" || kd == "flag") vals = { B(1, 0), B(1, 1) };
        else if (kd == "fp") { if (t.n == 4) fpv<float>(vals, 4, nr); else if (t.n == 8) fpv<double>(vals, 8, nr); else fpv<long double>(vals, 10, nr); }
        else if (kd == "ptr") { long es = t.es ? t.es : 1; long ps[] = { 0, es, 5 * es, 0x1000, 0x7fff1230, 0x123456789ab0, -es, 0xffff0, 0x100000000 }; for (long x : ps) vals.push_back(B((char*)&x, 8)); }
        std::vector<B> diffs; if (kd == "ptr") { long es = t.es ? t.es : 1; long ds[] = { 0, 1, -1, 2, 5, -5, 127, 128, -128, 255, 0x1000 / es, 1000003, -1000003, 1l << 33, -(1l << 33) }; for (long x : ds) diffs.push_back(B((char*)&x, 8)); for (int k = 0; k < nr; ++k) { long x = (int)rr(); diffs.push_back(B((char*)&x, 8)); } }
        for (auto& d : t.ops) {
            if (!strcmp(d.name, "wait") || !strcmp(d.name, "twait") || !strncmp(d.name, "notify", 6)) continue;
            ++nfn; long k = 0; B none;
            auto run = [&](const B& x, const B& a, const B& b) { each_order(d, k, [&](int m1, int m2) { call1(t, d, x, a, b, m1, m2, off + t.align * (unsigned)(k % 5)); }); ++k; };
            if (!strncmp(d.name, "cas", 3)) {
                for (size_t i = 0; i < vals.size() && i < 8; ++i) { const B& x = vals[i]; std::vector<B> as = { x }; for (unsigned by = 0; by < t.n; ++by) { B y = x; y[by] ^= kd == "bool" ? 1 : (1 << ((i + by) % 8)); if (kd == "fp" && t.n == 10 && by >= 8) continue; as.push_back(y); if (t.n > 16) by += t.n / 8; } as.push_back(vals[(i + 1) % vals.size()]);
                    for (auto& a : as) { run(x, a, vals[(i + 2) % vals.size()]); run(x, a, x); if (&a == &as[0]) for (auto& b : vals) run(x, a, b); } }
                if (kd == "fp") for (auto& x : vals) for (auto& a : vals) run(x, a, vals[3]);
            } else if (d.args & A_BIT) { if (d.args & A_A) { for (size_t i = 0; i < vals.size(); ++i) for (unsigned bit = 0; bit < t.n * 8; ++bit) { if (i >= 6 && (bit + i) % 5) continue; run(vals[i], B(1, (char)bit), none); } } else for (auto& x : vals) run(x, none, none); }
            else if (d.args & A_A) { auto& av = (d.args & A_DIFF) && kd == "ptr" ? diffs : vals; for (auto& x : vals) for (auto& a : av) run(x, a, none); }
            else for (auto& x : vals) run(x, none, none);
        }
    }
    for (auto& r : recs) { printf("{%s,\"rs\":[", r.first.c_str()); bool c = false; for (auto& o : r.second) { if (c) printf(","); c = true; printf("%s", o.first.c_str()); } printf("],\"ex\":["); c = false; for (auto& o : r.second) { if (c) printf(","); c = true; printf("\"%s\"", o.second.c_str()); } printf("]}\n"); }
    fprintf(stderr, "calls=%ld fns=%ld recs=%zu\n", ncalls, nfn, recs.size());
    return 0;
}
std::map<std::string, TypeDef>& types() { static std::map<std::string, TypeDef> m; return m; }
// the engine is not linked into the sequential harness
