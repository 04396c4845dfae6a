// Weak memory machine: the run-time interface of -fsanitize=thread implemented on the engine's fibers (see DESIGN.md, "Engine").
// Every atomic location keeps the messages written to it; a thread has a view (the newest message of each location it may no
// longer read behind), an acquire-pending view, a release-fence view, and a vector clock for races between plain accesses.
// Reads may take any message not behind the thread's view; writes and read-modify-writes come last in the location's order.
namespace {
const int WT = 10, WL = 64;
struct view { unsigned vc[WT]; unsigned short ts[WL]; };
struct msg { unsigned char b[16]; view v; };
struct wloc { uintptr_t a; int n, cnt, cap; msg* m; };
struct wthr { view V, A, R; int stale; };
struct wbyte { int wt; unsigned wc; unsigned rc[WT], awc[WT], arc[WT]; };
wloc wl[WL]; int nwl; wthr wt[WT]; view wS; int wraces;
struct wmx { uint64_t k; view v; wmx* next; }; wmx* wmxs;
struct wcell { uintptr_t a; wbyte b; }; const unsigned WH = 1u << 14; wcell* wh;
void join(view& x, const view& y) { for (int i = 0; i < WT; ++i) if (y.vc[i] > x.vc[i]) x.vc[i] = y.vc[i]; for (int i = 0; i < WL; ++i) if (y.ts[i] > x.ts[i]) x.ts[i] = y.ts[i]; }
void jointime(view& x, const view& y) { for (int i = 0; i < WL; ++i) if (y.ts[i] > x.ts[i]) x.ts[i] = y.ts[i]; }
void* wpages(size_t n) { return mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
void wrace() { if (!wraces++) logf_("{\"k\":\"race\",\"t\":%d}", cur->id); }
bool wm_on() { return in_run && eng_o.wmm && cur && cur->win && !cur->busy; }
struct Busy { fiber* f; Busy() : f(cur) { f->busy = 1; if (f->id >= WT) finish(ST_OVERFLOW); wthr& t = wt[f->id]; if (!t.V.vc[f->id]) t.V.vc[f->id] = 1; } ~Busy() { f->busy = 0; } };
wbyte& wb(uintptr_t a) {
    if (!wh) wh = (wcell*)wpages(sizeof(wcell) * WH);
    unsigned h = (unsigned)((a * 0x9E3779B97F4A7C15ull) >> 50); for (unsigned k = 0; k < WH; ++k) { wcell& c = wh[(h + k) & (WH - 1)]; if (c.a == a) return c.b; if (!c.a) { c.a = a; return c.b; } } finish(ST_OVERFLOW); return wh[0].b;
}
// kinds of access: plain read, plain write, atomic read, atomic write
void wcheck(uintptr_t a, size_t n, bool w, bool at) {
    int t = cur->id; view& V = wt[t].V; unsigned c = V.vc[t];
    for (size_t i = 0; i < n; ++i) {
        wbyte& b = wb(a + i);
        if (b.wt && b.wt != t && b.wc > V.vc[b.wt]) wrace();                                                     // a plain write before: everything conflicts
        if (w && !at) for (int u = 1; u < WT; ++u) if (u != t && b.rc[u] > V.vc[u]) wrace();                             // a plain read before
        if (!at && w) for (int u = 1; u < WT; ++u) if (u != t && (b.awc[u] > V.vc[u] || b.arc[u] > V.vc[u])) wrace();   // a plain read of an atomic object (the first guess of a compare-exchange loop) is allowed
        if (!at) { if (w) { b.wt = t; b.wc = c; } else b.rc[t] = c; } else { if (w) b.awc[t] = c; else b.arc[t] = c; }
    }
}
wloc& wl_get(uintptr_t a, int n, int& off) {   // narrow accesses share the location of their aligned word (atomic_flag's operations mix widths)
    off = 0; if (n < 4) { off = a & 3; a -= off; n = 4; }
    int i = 0; for (; i < nwl; ++i) if (wl[i].a == a && wl[i].n == n) break;
    if (i == nwl) { for (int k = 0; k < nwl; ++k) if (a < wl[k].a + wl[k].n && wl[k].a < a + n) { logf_("{\"k\":\"mixed\",\"a\":\"%lx\",\"n\":%d,\"b\":\"%lx\",\"m\":%d}", a, n, wl[k].a, wl[k].n); finish(ST_OVERFLOW); }
        if (nwl == WL) finish(ST_OVERFLOW);
        wloc& l = wl[nwl++]; l.a = a; l.n = n; l.cnt = 1; l.cap = 400; l.m = (msg*)wpages(sizeof(msg) * l.cap); memcpy(l.m[0].b, (void*)a, n); return l; }
    wloc& l = wl[i];
    if (memcmp(l.m[l.cnt - 1].b, (void*)a, n)) { if (l.cnt == l.cap) stuck("messages"); l.m[l.cnt] = l.m[l.cnt - 1]; memcpy(l.m[l.cnt].b, (void*)a, n); ++l.cnt; }   // written behind the machine's back
    return l;
}
bool w_acq(int mo) { return mo == 1 || mo == 2 || mo >= 4; }
bool w_rel(int mo) { return mo >= 3; }
void w_pre(int mo) { if (mo == 5) jointime(wt[cur->id].V, wS); }
void w_post(int mo) { if (mo == 5) jointime(wS, wt[cur->id].V); }
void w_take(wloc& l, int k, int mo) { wthr& t = wt[cur->id]; int li = &l - wl; if (t.V.ts[li] < k) t.V.ts[li] = k; if (t.A.ts[li] < k) t.A.ts[li] = k; join(t.A, l.m[k].v); if (w_acq(mo)) join(t.V, l.m[k].v); }
int w_pick(wloc& l) { // any message not behind the view
    wthr& t = wt[cur->id]; int lo = t.V.ts[&l - wl], hi = l.cnt - 1;
    if (lo < hi && t.stale < 4 && rnd01() < eng_o.pold) { ++t.stale; return rnd32() % 5 < 3 ? lo : lo + rnd32() % (hi - lo + 1); }
    t.stale = 0; return hi;
}
void w_put(wloc& l, const void* v, int off, int n, int mo, bool rmw) {
    wthr& t = wt[cur->id]; int li = &l - wl; if (l.cnt == l.cap) stuck("messages");
    int k = l.cnt++; msg& m = l.m[k]; memcpy(m.b, l.m[k - 1].b, l.n); memcpy(m.b + off, v, n);
    if (t.V.ts[li] < k) t.V.ts[li] = k;
    if (t.A.ts[li] < k) t.A.ts[li] = k;
    m.v = w_rel(mo) ? t.V : t.R; if (m.v.ts[li] < k) m.v.ts[li] = k;
    if (rmw) join(m.v, l.m[k - 1].v);
    if (w_rel(mo)) ++t.V.vc[cur->id];
    memcpy((void*)(l.a + off), v, n);
}
template <class T> T w_load(const volatile T* a, int mo) {
    T r; if (!wm_on()) { memcpy(&r, (const void*)a, sizeof r); return r; }
    Busy b; sched_point(); wcheck((uintptr_t)a, sizeof(T), false, true); w_pre(mo); int off; wloc& l = wl_get((uintptr_t)a, sizeof(T), off); int k = w_pick(l); w_take(l, k, mo); memcpy(&r, l.m[k].b + off, sizeof r); w_post(mo); return r;
}
template <class T> void w_store(volatile T* a, T v, int mo) {
    if (!wm_on()) { memcpy((void*)a, &v, sizeof v); return; }
    Busy b; sched_point(); wcheck((uintptr_t)a, sizeof(T), true, true); w_pre(mo); int off; wloc& l = wl_get((uintptr_t)a, sizeof(T), off); w_put(l, &v, off, sizeof(T), mo, false); w_post(mo);
}
template <class T, class Fn> T w_rmw(volatile T* a, int mo, Fn f) {
    T x, y; if (!wm_on()) { memcpy(&x, (const void*)a, sizeof x); y = f(x); memcpy((void*)a, &y, sizeof y); return x; }
    Busy b; sched_point(); wcheck((uintptr_t)a, sizeof(T), true, true); w_pre(mo); int off; wloc& l = wl_get((uintptr_t)a, sizeof(T), off); int k = l.cnt - 1; memcpy(&x, l.m[k].b + off, sizeof x); w_take(l, k, mo); y = f(x); w_put(l, &y, off, sizeof(T), mo, true); w_post(mo); return x;
}
template <class T> int w_cas(volatile T* a, T* e, T v, int mo, int mf, bool weak) {
    T x; if (!wm_on()) { memcpy(&x, (const void*)a, sizeof x); if (!memcmp(&x, e, sizeof x)) { memcpy((void*)a, &v, sizeof v); return 1; } memcpy(e, &x, sizeof x); return 0; }
    Busy b; sched_point(); wcheck((uintptr_t)a, sizeof(T), false, true); int off; wloc& l = wl_get((uintptr_t)a, sizeof(T), off); w_pre(mf); int top = l.cnt - 1; int k = w_pick(l);
    memcpy(&x, l.m[k].b + off, sizeof x); bool eq = !memcmp(&x, e, sizeof x);
    if (k != top && eq) { k = top; memcpy(&x, l.m[k].b + off, sizeof x); eq = !memcmp(&x, e, sizeof x); }
    if (eq && !(weak && wt[cur->id].stale < 4 && rnd01() < eng_o.pold * 0.3 && ++wt[cur->id].stale)) { w_pre(mo); wcheck((uintptr_t)a, sizeof(T), true, true); w_take(l, k, mo); w_put(l, &v, off, sizeof(T), mo, true); w_post(mo); return 1; }
    w_take(l, k, mf); w_post(mf); memcpy(e, &x, sizeof x); return 0;
}
void w_fence(int mo) {
    if (!wm_on()) return;
    Busy b; sched_point(); wthr& t = wt[cur->id];
    if (w_acq(mo)) join(t.V, t.A);
    if (mo == 5) { jointime(t.V, wS); jointime(wS, t.V); }
    if (w_rel(mo)) { t.R = t.V; ++t.V.vc[cur->id]; }
}
void w_plain(const volatile void* p, size_t n, bool w) {
    if (!wm_on() || is_stack((uintptr_t)p)) return;
    Busy b; sched_point(); wcheck((uintptr_t)p, n, w, false);
}
// mutexes, one-time initialisation
view& w_mx(uint64_t k) { for (wmx* x = wmxs; x; x = x->next) if (x->k == k) return x->v; wmx* x = (wmx*)wpages(sizeof(wmx)); x->k = k; x->next = wmxs; wmxs = x; return x->v; }
void w_lock(uint64_t k) { if (eng_o.wmm && cur->id && cur->id < WT) join(wt[cur->id].V, w_mx(k)); }
void w_unlock(uint64_t k) { if (eng_o.wmm && cur->id && cur->id < WT) { wthr& t = wt[cur->id]; if (!t.V.vc[cur->id]) t.V.vc[cur->id] = 1; join(w_mx(k), t.V); ++t.V.vc[cur->id]; } }
}
extern "C" {
typedef unsigned __int128 u128_;
#define TA(N, T) \
T __tsan_atomic##N##_load(const volatile T* a, int mo) { return w_load(a, mo); } \
void __tsan_atomic##N##_store(volatile T* a, T v, int mo) { w_store(a, v, mo); } \
T __tsan_atomic##N##_exchange(volatile T* a, T v, int mo) { return w_rmw(a, mo, [&](T) { return v; }); } \
T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int mo) { return w_rmw(a, mo, [&](T x) { return (T)(x + v); }); } \
T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int mo) { return w_rmw(a, mo, [&](T x) { return (T)(x - v); }); } \
T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int mo) { return w_rmw(a, mo, [&](T x) { return (T)(x & v); }); } \
T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int mo) { return w_rmw(a, mo, [&](T x) { return (T)(x | v); }); } \
T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int mo) { return w_rmw(a, mo, [&](T x) { return (T)(x ^ v); }); } \
T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int mo) { return w_rmw(a, mo, [&](T x) { return (T)~(x & v); }); } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int mf) { return w_cas(a, e, v, mo, mf, false); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int mf) { return w_cas(a, e, v, mo, mf, true); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T e, T v, int mo, int mf) { w_cas(a, &e, v, mo, mf, false); return e; }
TA(8, unsigned char) TA(16, unsigned short) TA(32, unsigned) TA(64, unsigned long) TA(128, u128_)
void __tsan_atomic_thread_fence(int mo) { w_fence(mo); }
void __tsan_atomic_signal_fence(int) {}
#define TR(N) void __tsan_read##N(void* p) { w_plain(p, N, false); } void __tsan_write##N(void* p) { w_plain(p, N, true); } void __tsan_unaligned_read##N(void* p) { w_plain(p, N, false); } void __tsan_unaligned_write##N(void* p) { w_plain(p, N, true); } \
void __tsan_read_write##N(void* p) { w_plain(p, N, false); w_plain(p, N, true); } void __tsan_unaligned_read_write##N(void* p) { w_plain(p, N, false); w_plain(p, N, true); } \
void __tsan_volatile_read##N(void* p) { w_plain(p, N, false); } void __tsan_volatile_write##N(void* p) { w_plain(p, N, true); } void __tsan_unaligned_volatile_read##N(void* p) { w_plain(p, N, false); } void __tsan_unaligned_volatile_write##N(void* p) { w_plain(p, N, true); }
TR(1) TR(2) TR(4) TR(8) TR(16)
void __tsan_read_range(void* p, unsigned long n) { w_plain(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { w_plain(p, n, true); }
void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {} void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_acquire(void*) {} void __tsan_release(void*) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); } void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); } void* __tsan_memset(void* d, int v, size_t n) { return memset(d, v, n); }
}
