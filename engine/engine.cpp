#include <new>
// Deterministic instruction-level execution engine (see DESIGN.md, "Engine").
// All threads of a scenario are fibers of one OS thread. Inside API windows the trap flag is set and every instruction of
// the code under test traps; the engine may switch fibers before any instruction that touches memory other than the fiber's
// own stack. Non-locked read-modify-write instructions are split, stores may be delayed in per-fiber store buffers
// (x86-TSO), futex / pthread / clock / sleep / allocation calls are emulated on virtual time.
#include "engine.h"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <climits>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <fcntl.h>
#include <unistd.h>
#include <ucontext.h>
#include <chrono>
#include <initializer_list>

extern "C" {
extern char __data_start __attribute__((weak)); extern char _end __attribute__((weak));
}
namespace {
enum { NONE, LOAD, STORE, RMW, LOCKED, FENCE, BULK };
struct insn { uint64_t addr; uint8_t kind, size, base, index, scale, torn; uint8_t pad[2]; int64_t disp; };
insn* g_ins; size_t g_nins; uint64_t g_tstart, g_tend; uint32_t* g_idx;
const int greg_map[17] = { REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15, REG_RDI, REG_RSI, REG_RBP, REG_RBX, REG_RDX, REG_RAX, REG_RCX, REG_RSP, REG_RIP };

typedef __int128 i128;
const long NS = 1000000000L;
struct sbent { char* p; unsigned char n; unsigned char b[32]; };
enum { RUN, BLOCKED, DONE, FROZEN, GATED };
struct fiber {
    int id; int state; void* sp; char* stack; size_t ssize;
    void (*fn)(void*); void* arg; int proc; int err;
    // blocking
    uint64_t key; bool has_to; int toclk; i128 to; int wres; int wkind; // wkind 1 futex 2 sleep 3 mutex 4 cond
    pthread_mutex_t* mtx; unsigned long wseq;
    bool has_dl; int dlclk; i128 dl;
    // store buffer
    sbent sb[64]; int nsb;
    // post-instruction state
    bool post; char* pea; int psz; int pkind; unsigned char under[32]; bool cap; int nov; unsigned char ov[64][32];
    long wpts; int win; int prio; long runpts; int busy;
    // torn 16-byte access: 1 the low half read early has to be put back, 2 the high half is still to be written
    int tear; unsigned char tb[8];
};
const int MAXF = 72;
fiber F[MAXF + 1]; int nF; fiber* cur; bool in_run;
void* main_sp;
eng_result* R; size_t R_cap;
long g_points, g_steps; unsigned long g_seq;
i128 mono, realoff, bootoff; bool time_dirty; long silent_polls; unsigned long ev_seq;
uint64_t rng;
unsigned rnd32() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (unsigned)(rng >> 16); }
double rnd01() { return (rnd32() & 0xffffff) / (double)0x1000000; }
// virtual processes
char *d_lo, *d_hi; char* d_img[4]; int cur_proc;
// arena
const size_t ARENA = 8u << 20; char* arena; unsigned char* shadow; size_t atop;
long settled, live_blocks, live_bytes, peak_blocks, total_blocks, fail_at, fail_n, alloc_no;
struct ablk { size_t size; size_t magic; };
int plan_i, order_i;
int chg_pts[16], nchg;

void finish(int status) {
    R->status = status; R->points = g_points; R->steps = g_steps; R->nthreads = nF;
    for (int i = 1; i <= nF && i < 64; ++i) R->tpoints[i] = F[i].wpts;
    _exit(0);
}
void logv(const char* fmt, va_list ap) {
    size_t room = R_cap - R->len;
    int n = vsnprintf(R->log + R->len, room, fmt, ap);
    if (n < 0 || (size_t)n + 2 > room) finish(ST_OVERFLOW);
    R->len += n; R->log[R->len++] = '\n'; R->log[R->len] = 0;
}
void logf_(const char* fmt, ...) { va_list ap; va_start(ap, fmt); logv(fmt, ap); va_end(ap); }
void split_ns(i128 v, long& s, long& n) { i128 q = v / NS, r = v % NS; if (r < 0) { r += NS; --q; } s = (long)q; n = (long)r; }
// times are logged in three parts, each of which the model checker can represent
void eng_time(char* o, i128 v) { long s, n; split_ns(v, s, n); long q = s / 1000000, r = s % 1000000; if (r < 0) { r += 1000000; --q; } if (q > 2000000000) q = 2000000000; if (q < -2000000000) q = -2000000000; sprintf(o, "[%ld,%ld,%ld]", q, r, n); }
void log_time() {
    if (!time_dirty) return; time_dirty = false;
    char w[3][64]; i128 v[3] = { mono, mono + realoff, mono + bootoff }; for (int i = 0; i < 3; ++i) eng_time(w[i], v[i]);
    logf_("{\"k\":\"t\",\"n\":[%s,%s,%s]}", w[0], w[1], w[2]);
}
i128 clk_now(int clk) {
    switch (clk) { case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: return mono + realoff; case CLOCK_BOOTTIME: case CLOCK_TAI: return mono + bootoff; default: return mono; }
}

extern "C" void eng_switch(void** save, void* to);
__asm__(
".text\n.globl eng_switch\n.type eng_switch,@function\neng_switch:\n"
"pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15; subq $8,%rsp; stmxcsr (%rsp); fnstcw 4(%rsp)\n"
"movq %rsp,(%rdi); movq %rsi,%rsp\n"
"ldmxcsr (%rsp); fldcw 4(%rsp); addq $8,%rsp; popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp; ret\n");

void set_proc(int p) {
    if (p == cur_proc || !d_lo) return;
    size_t n = d_hi - d_lo;
    memcpy(d_img[cur_proc], d_lo, n); memcpy(d_lo, d_img[p], n); cur_proc = p;
}
void flush_one(fiber* f) { sbent& e = f->sb[0]; memcpy(e.p, e.b, e.n); memmove(f->sb, f->sb + 1, sizeof(sbent) * --f->nsb); }
void flush_all(fiber* f) { while (f->nsb) flush_one(f); }

void switch_to(fiber* t) {
    if (t == cur) return;
    fiber* s = cur; s->err = errno;
    set_proc(t->proc); cur = t; t->runpts = 0;
    eng_switch(&s->sp, t->sp);
    errno = s->err;   // cur == s again
}
int perm_at(int i) { // i in 0..nF-1 -> fiber id by base permutation
    // Lehmer-coded for small nF, rotation otherwise
    int ids[MAXF]; for (int k = 0; k < nF; ++k) ids[k] = k + 1;
    unsigned p = eng_o.perm;
    if (nF <= 5) { int out[MAXF]; int n = nF; for (int k = 0; k < nF; ++k) { int d = p % n; p /= n; out[k] = ids[d]; for (int j = d; j < n - 1; ++j) ids[j] = ids[j + 1]; --n; } return out[i]; }
    return ids[(i + p) % nF];
}
int slice_i; void advance(i128); bool expire(); void wake(fiber*, int);
bool lazy() { return eng_o.mode == 3 && slice_i < eng_o.nslices; } // the slices say when a timeout takes effect
bool due(fiber& f) { return f.state == BLOCKED && f.has_to && clk_now(f.toclk) >= f.to; }
fiber* pick_any() { for (int i = 0; i < nF; ++i) { fiber* f = &F[perm_at(i)]; if (f->state == RUN) return f; } return nullptr; }
fiber* pick_next() {
    if (eng_o.mode == 1) { int c[MAXF], n = 0; for (int i = 1; i <= nF; ++i) if (F[i].state == RUN) c[n++] = i; return n ? &F[c[rnd32() % n]] : nullptr; }
    if (eng_o.mode == 3) { while (slice_i < eng_o.nslices) { int t = eng_o.slices[slice_i++]; if (t == 0 && eng_o.tsec) advance((i128)eng_o.tsec * NS + eng_o.tnsec); if (t >= 1 && t <= nF && due(F[t])) wake(&F[t], F[t].wkind == 2 ? 0 : ETIMEDOUT); if (t >= 1 && t <= nF && F[t].state == RUN) return &F[t]; } expire(); return cur->id && cur->state == RUN ? cur : pick_any(); }
    if (eng_o.mode == 2) { fiber* b = nullptr; for (int i = 1; i <= nF; ++i) if (F[i].state == RUN && (!b || F[i].prio > b->prio)) b = &F[i]; return b; }
    for (int i = 0; i < nF; ++i) { fiber* f = &F[perm_at(i)]; if (f->state == RUN) return f; }
    return nullptr;
}
void wake(fiber* f, int res) { f->state = RUN; f->wres = res; f->key = 0; }
bool expire() { bool any = false; for (int i = 1; i <= nF; ++i) { fiber& f = F[i]; if (due(f)) { wake(&f, f.wkind == 2 ? 0 : ETIMEDOUT); any = true; } } return any; }
// earliest wake-up in terms of mono
bool earliest(i128& t, bool incl_sleep, bool incl_dl) {
    bool any = false;
    for (int i = 1; i <= nF; ++i) { fiber& f = F[i]; if (f.state != BLOCKED) continue;
        if (f.has_to && (incl_sleep || f.wkind != 2)) { i128 m = f.to - (clk_now(f.toclk) - mono); if (!any || m < t) { t = m; any = true; } }
        if (incl_dl && f.has_dl) { i128 m = f.dl - (clk_now(f.dlclk) - mono); if (m > mono && (!any || m < t)) { t = m; any = true; } } }
    return any;
}
void advance(i128 t) { if (t > mono) { mono = t; time_dirty = true; } if (!lazy()) expire(); }

fiber* schedule_blocked() { // nobody runnable: advance time or end; returns fiber to run
    for (;;) {
        for (int i = 1; i <= nF; ++i) flush_all(&F[i]);
        bool pending = false, pollers = false, gated = false;
        for (int i = 1; i <= nF; ++i) if (F[i].state == BLOCKED) { pending = true; if (F[i].wkind == 2) pollers = true; } else if (F[i].state == GATED) gated = true;
        if (!pending && !gated) { finish(ST_DONE); }
        i128 t;
        if (pollers && silent_polls < 4 + 2 * nF) { ++silent_polls; if (earliest(t, true, true)) { advance(t); fiber* n = pick_next(); if (n) return n; continue; } }
        // quiescent: everything pending is asleep (pollers have had several rounds)
        log_time(); if (pending) logf_("{\"k\":\"q\"}"); silent_polls = 0; settled = total_blocks;
        if (gated) {
            int want = -1;
            while (order_i < eng_o.norder) { want = eng_o.order[order_i++]; if (want == 0 || (want <= nF && F[want].state == GATED)) break; want = -1; }
            if (want < 0) { for (int i = 1; i <= nF && want < 0; ++i) if (F[i].state == GATED) want = i; }
            if (want > 0) { F[want].state = RUN; return &F[want]; }
            if (!earliest(t, false, true)) continue;
            advance(t < mono ? mono : t); fiber* n = pick_next(); if (n) return n; continue;
        }
        i128 before = mono;
        if (!earliest(t, false, true)) finish(ST_QUIET);
        if (t < before) t = before;
        advance(t);
        if (pollers) expire();
        if (++g_points > eng_o.maxpoints) { logf_("{\"k\":\"stuck\",\"why\":\"time\"}"); finish(ST_STUCK); }
        fiber* n = pick_next(); if (n) return n;
    }
}
void block_now() { // cur->state == BLOCKED
    flush_all(cur); cur->runpts = 0;
    fiber* n = pick_next(); if (!n) n = schedule_blocked();
    if (n != cur) switch_to(n);
}
void stuck(const char* why) { logf_("{\"k\":\"stuck\",\"why\":\"%s\"}", why); finish(ST_STUCK); }

void sched_point(bool sync = false) {
    if (!in_run) return;
    long idx = g_points++;
    if (g_points > eng_o.maxpoints) stuck("points");
    if (cur->win) cur->wpts++;
    cur->runpts++;
    if (eng_o.suspend_tid == cur->id && cur->win && cur->wpts == eng_o.suspend_pt) {
        cur->state = FROZEN; log_time(); logf_("{\"k\":\"z\",\"t\":%d}", cur->id);
        // its buffered stores never drain while it is frozen unless the hardware drains them: they do
        flush_all(cur);
        fiber* n = pick_next(); if (!n) n = schedule_blocked();
        switch_to(n); return;
    }
    if (eng_o.step_pt && idx == eng_o.step_pt) { log_time(); realoff += (i128)eng_o.step_delta_s * NS; time_dirty = true; expire(); }
    if (eng_o.tso && eng_o.pflush > 0) for (int i = 1; i <= nF; ++i) if (F[i].nsb && rnd01() < eng_o.pflush) flush_one(&F[i]);
    if (eng_o.ptime > 0 && rnd01() < eng_o.ptime) { i128 t; if (earliest(t, true, true)) advance(t); else if (cur->has_dl) { i128 m = cur->dl - (clk_now(cur->dlclk) - mono); if (m > mono) advance(m); } }
    if (eng_o.pspur > 0 && rnd01() < eng_o.pspur) { // interrupt a random futex sleeper
        int c[MAXF], n = 0; for (int i = 1; i <= nF; ++i) if (F[i].state == BLOCKED && (F[i].wkind == 1 || F[i].wkind == 4)) c[n++] = i;
        if (n) { fiber& f = F[c[rnd32() % n]]; wake(&f, f.wkind == 4 ? 0 : ((rnd32() & 1) ? EINTR : 0)); } }
    fiber* n = cur; bool fine = !eng_o.coarse || sync;
    if (cur->runpts > (eng_o.runlim ? eng_o.runlim : 3000)) { cur->runpts = 0; flush_all(cur); for (int k = 1; k < nF; ++k) { fiber* g = &F[(cur->id - 1 + k) % nF + 1]; if (g->state == RUN) { n = g; break; } } if (eng_o.mode == 2) { cur->prio = -(int)(g_points); } }
    else if (eng_o.mode == 0) {
        while (plan_i < eng_o.nplan && eng_o.plan[plan_i].idx <= idx) { int t = eng_o.plan[plan_i].tid; if (eng_o.plan[plan_i].idx == idx && t >= 1 && t <= nF && F[t].state == RUN) n = &F[t]; ++plan_i; }
    } else if (eng_o.mode == 1) { if (fine && rnd01() < eng_o.psw) n = pick_next(); }
    else if (eng_o.mode == 3) { if (sync) n = pick_next(); }
    else { for (int i = 0; i < nchg; ++i) if (chg_pts[i] == idx) cur->prio = -i - 1; if (fine) n = pick_next(); }
    if (n && n != cur) switch_to(n);
}

int g_bad;
void bad(const char* why, const void* p) {
    logf_("{\"k\":\"bad\",\"t\":%d,\"why\":\"%s\"}", cur->id, why);
    if (++g_bad > 20) finish(ST_STUCK); // the execution is rejected by the first one already
}
void check_access(uintptr_t ea, int n, bool wr) {
    if (ea + n <= (uintptr_t)arena || ea >= (uintptr_t)arena + ARENA) return;
    if (ea < (uintptr_t)arena) { bad("oob", 0); return; }
    unsigned char* s = shadow + (ea - (uintptr_t)arena);
    for (int i = 0; i < n; ++i) { if (s[i] == 0) { bad("oob", 0); return; } if (s[i] == 2) { bad("use-after-free", 0); return; } if (s[i] == 4) { bad(wr ? "neighbour-write" : "neighbour-read", 0); return; } }
}
bool in_arena(uintptr_t a) { return a >= (uintptr_t)arena && a < (uintptr_t)arena + ARENA; }
bool is_stack(uintptr_t a) { return a >= (uintptr_t)cur->stack && a < (uintptr_t)cur->stack + cur->ssize; }

void post_instruction() {
    fiber* f = cur;
    if (f->tear) {
        int k = f->tear; f->tear = 0;
        if (k == 1) memcpy(f->pea, f->tb, 8);
        else { unsigned char hi[8]; char* p = f->pea; memcpy(hi, p + 8, 8); memcpy(p + 8, f->tb, 8); sched_point(); memcpy(p + 8, hi, 8); }
    }
    if (!f->post) return; f->post = false;
    if (f->cap) { // store captured: new value at pea
        sbent e; e.p = f->pea; e.n = f->psz; memcpy(e.b, f->pea, f->psz);
        bool drop = false;
        if (f->nov) for (int i = f->nov - 1; i >= 0; --i) memcpy(f->sb[i].p, f->ov[i], f->sb[i].n);
        else memcpy(f->pea, f->under, f->psz);
        if (f->nov) { // bytes outside overlays must be restored too
            // under[] was taken before overlays were applied
            memcpy(f->pea, f->under, f->psz);
        }
        if (!drop) { if (f->nsb >= 60) flush_one(f); f->sb[f->nsb++] = e; }
    } else if (f->nov) for (int i = f->nov - 1; i >= 0; --i) memcpy(f->sb[i].p, f->ov[i], f->sb[i].n);
    f->nov = 0;
}
void trap(int, siginfo_t*, void* vuc) {
    int saved = errno;
    ucontext_t* uc = (ucontext_t*)vuc; greg_t* g = uc->uc_mcontext.gregs;
    if (!in_run) { errno = saved; return; }
    post_instruction();
    if (++g_steps > eng_o.maxsteps) stuck("steps");
    uint64_t rip = g[REG_RIP];
    if (rip < g_tstart || rip >= g_tend) { if (cur->nsb) flush_all(cur); errno = saved; return; }
    uint32_t ix = g_idx[rip - g_tstart];
    if (!ix) { errno = saved; return; }
    const insn& I = g_ins[ix - 1];
    if (I.kind == NONE) { errno = saved; return; }
    if (I.kind == FENCE) { flush_all(cur); errno = saved; return; }
    if (I.kind == BULK) { // string instruction: no split, drain
        uintptr_t d = g[REG_RDI]; if (!is_stack(d)) { flush_all(cur); sched_point(); } errno = saved; return; }
    uintptr_t ea = I.disp; if (I.base != 255) ea += g[greg_map[I.base]]; if (I.index != 255) ea += (uintptr_t)g[greg_map[I.index]] * I.scale;
    if (is_stack(ea)) { if (I.kind == LOCKED) flush_all(cur); errno = saved; return; }   // a locked instruction on a private location is a fence all the same
    if (d_lo && ea >= 0x400000 && ea < (uintptr_t)d_lo) { errno = saved; return; } // text, rodata, got
    // (the fiber's saved registers live in this frame; switching away and back is transparent)
    fiber* f = cur;
    if (I.kind == LOCKED) { flush_all(f); sched_point(true); flush_all(f); check_access(ea, I.size, true); errno = saved; return; }
    sched_point();
    check_access(ea, I.size, I.kind != LOAD);
    if (I.size > 1 && (ea & 63) + I.size > 64 && ea >= (uintptr_t)arena && ea < (uintptr_t)arena + ARENA && shadow[ea - (uintptr_t)arena] == 5) bad("split-access", 0);
    if (I.kind == RMW && I.size <= 32) {
        unsigned char v[32], w[32];
        if (!eng_o.tso) {
            memcpy(v, (void*)ea, I.size);
            sched_point();
            memcpy(w, (void*)ea, I.size);
            if (memcmp(v, w, I.size)) memcpy((void*)ea, v, I.size); // instruction sees the value read before the interleaved writes
            if (I.size == 16 && in_arena(ea)) { f->tear = 2; f->pea = (char*)ea; memcpy(f->tb, w + 8, 8); }
            errno = saved; return;
        }
    }
    // only aligned VEX-encoded 16-byte moves are single-copy atomic
    if (I.size == 16 && I.kind != RMW && !eng_o.tso && (I.torn || (ea & 15)) && in_arena(ea)) {
        f->pea = (char*)ea;
        if (I.kind == STORE) { f->tear = 2; memcpy(f->tb, (char*)ea + 8, 8); }
        else { unsigned char v[8]; memcpy(v, (void*)ea, 8); sched_point(); f->tear = 1; memcpy(f->tb, (void*)ea, 8); memcpy((void*)ea, v, 8); }
        errno = saved; return;
    }
    if (eng_o.tso) {
        bool st = I.kind == STORE || I.kind == RMW;
        if (st && I.size > 32) { flush_all(f); errno = saved; return; }
        if (f->nsb || st) {
            if (st) memcpy(f->under, (void*)ea, I.size);
            f->nov = f->nsb;
            for (int i = 0; i < f->nsb; ++i) { memcpy(f->ov[i], f->sb[i].p, f->sb[i].n); memcpy(f->sb[i].p, f->sb[i].b, f->sb[i].n); }
            f->post = true; f->cap = st; f->pea = (char*)ea; f->psz = I.size;
        }
    }
    errno = saved;
}
// RAII: trap flag off while engine code runs on behalf of the code under test
struct Guard {
    bool tf; fiber* w;
    Guard() : tf(false), w(nullptr) {
        if (eng_o.wmm) { if (in_run && cur && cur->win && !cur->busy) { tf = true; w = cur; w->busy = 1; } return; }
        unsigned long fl; __asm__ __volatile__("leaq -128(%%rsp),%%rsp; pushfq; movq (%%rsp),%0; andq $~0x100,(%%rsp); popfq; leaq 128(%%rsp),%%rsp" : "=&r"(fl) :: "memory", "cc");
        tf = in_run && (fl & 0x100); if (tf) { post_instruction(); flush_all(cur); }
    }
    ~Guard() { if (w) w->busy = 0; else if (tf) STEP_ON(); }
};
#define REAL(T, n) ([] { static void* p; if (!p) p = dlsym(RTLD_NEXT, n); return T p; }())

void* arena_alloc(size_t size, size_t al) {
    if (al < 16) al = 16;
    size_t p = atop + sizeof(ablk) + 64; p = (p + al - 1) & ~(al - 1);
    if (p + size + 64 > ARENA) { logf_("{\"k\":\"stuck\",\"why\":\"memory\"}"); finish(ST_STUCK); }
    atop = p + size;
    ablk* b = (ablk*)(arena + p - sizeof(ablk)); b->size = size; b->magic = 0xA110C;
    memset(shadow + p, 1, size); memset(arena + p, 0xA5, size);
    return arena + p;
}
bool in_arena(const void* p) { return arena && (char*)p >= arena && (char*)p < arena + ARENA; }
void fiber_main() { fiber* f = cur; f->fn(f->arg); flush_all(f); f->state = DONE; fiber* n = pick_next(); if (!n) n = schedule_blocked(); switch_to(n); abort(); }

} // namespace
#include "wmm.inc"
namespace {
// ---- futex emulation ----
char* m2a; char* m2b; size_t m2n;
uint64_t fkey(void* p, bool priv) {
    char* c = (char*)p;
    if (!priv && m2n) { if (c >= m2a && c < m2a + m2n) return (1ull << 62) | (uint64_t)(c - m2a); if (c >= m2b && c < m2b + m2n) return (1ull << 62) | (uint64_t)(c - m2b); }
    if (priv) return (uint64_t)p * 8 + cur->proc;
    // shared futex on non-shared-mapping memory is keyed by (mm, address) in Linux: arena memory is shared between virtual processes
    if (!in_arena(p)) return (uint64_t)p * 8 + cur->proc;   // memory that is not shared
    return (uint64_t)p * 8 + 7;
}
int futex_wake(uint64_t key, int n) {
    int w = 0;
    while (w < n) { fiber* b = nullptr; for (int i = 1; i <= nF; ++i) if (F[i].state == BLOCKED && F[i].wkind == 1 && F[i].key == key && (!b || F[i].wseq < b->wseq)) b = &F[i]; if (!b) break; wake(b, 0); ++w; }
    return w;
}
long do_futex(void* addr, int op, unsigned val, const timespec* ts, void* addr2, unsigned val3) {
    int cmd = op & FUTEX_CMD_MASK; bool priv = op & FUTEX_PRIVATE_FLAG;
    sched_point(true);
    if ((uintptr_t)addr & 3) { errno = EINVAL; return -1; }
    switch (cmd) {
    case FUTEX_WAIT: case FUTEX_WAIT_BITSET: {
        if (cmd == FUTEX_WAIT_BITSET && eng_o.nosys) { errno = ENOSYS; return -1; }
        if (ts && (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec >= NS)) { errno = EINVAL; return -1; }
        if (cmd == FUTEX_WAIT_BITSET && val3 == 0) { errno = EINVAL; return -1; }
        if (cmd == FUTEX_WAIT && (op & FUTEX_CLOCK_REALTIME)) { /* allowed since 4.5 */ }
        if (*(volatile unsigned*)addr != val) { errno = EAGAIN; return -1; }
        if (eng_o.pintr > 0 && rnd01() < eng_o.pintr) { if (rnd32() & 1) { errno = EINTR; return -1; } return 0; }
        fiber* f = cur; f->has_to = ts != nullptr;
        if (ts) { i128 t = (i128)ts->tv_sec * NS + ts->tv_nsec; f->toclk = (op & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC; f->to = cmd == FUTEX_WAIT ? clk_now(f->toclk) + t : t; if (f->to <= clk_now(f->toclk) && !lazy()) { errno = ETIMEDOUT; return -1; } }
        f->key = fkey(addr, priv); f->wkind = 1; f->wseq = ++g_seq; f->state = BLOCKED; block_now();
        f->has_to = false;
        if (f->wres) { errno = f->wres; return -1; }
        return 0; }
    case FUTEX_WAKE: case FUTEX_WAKE_BITSET: { int r = futex_wake(fkey(addr, priv), (int)val < 1 ? 1 : (int)val); return r; }
    case FUTEX_REQUEUE: case FUTEX_CMP_REQUEUE: {
        if (cmd == FUTEX_CMP_REQUEUE && *(volatile unsigned*)addr != val3) { errno = EAGAIN; return -1; }
        uint64_t k = fkey(addr, priv), k2 = fkey(addr2, priv); int r = 0;
        if ((int)val < 0 || (int)(long)ts < 0) { errno = EINVAL; return -1; }
        if (val) r += futex_wake(k, (int)val);
        long nr = (long)(unsigned)(uintptr_t)ts;
        for (long q = 0; q < nr; ++q) { fiber* b = nullptr; for (int i = 1; i <= nF; ++i) if (F[i].state == BLOCKED && F[i].wkind == 1 && F[i].key == k && (!b || F[i].wseq < b->wseq)) b = &F[i]; if (!b) break; b->key = k2; b->wseq = ++g_seq; ++r; }
        return r; }
    default: errno = ENOSYS; return -1; }
}
void sleep_rel(const timespec* ts) {
    sched_point();
    fiber* f = cur; if (eng_o.nap && f->win) logf_("{\"k\":\"nap\",\"t\":%d}", f->id); f->has_to = true; f->toclk = CLOCK_MONOTONIC; f->to = mono + (i128)ts->tv_sec * NS + ts->tv_nsec; f->wkind = 2; f->key = 0; f->state = BLOCKED; block_now(); f->has_to = false;
}
} // namespace

extern "C" {
eng_opts eng_o;
// ---------- interposed functions ----------
long syscall(long nr, ...) noexcept {
    va_list ap; va_start(ap, nr); long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long); va_end(ap);
    if (nr == SYS_futex && in_run) { Guard g; if (g.tf) return do_futex((void*)a[0], (int)a[1], (unsigned)a[2], (const timespec*)a[3], (void*)a[4], (unsigned)a[5]); }
    return REAL((long (*)(long, ...)), "syscall")(nr, a[0], a[1], a[2], a[3], a[4], a[5]);
}
int clock_gettime(clockid_t c, timespec* ts) noexcept {
    if (in_run) { Guard g; i128 v = clk_now(c); long s, n; split_ns(v, s, n); ts->tv_sec = s; ts->tv_nsec = n; return 0; }
    return REAL((int (*)(clockid_t, timespec*)), "clock_gettime")(c, ts);
}
int nanosleep(const timespec* a, timespec* b) { if (in_run) { Guard g; if (g.tf) { sleep_rel(a); return 0; } } return REAL((int (*)(const timespec*, timespec*)), "nanosleep")(a, b); }
int clock_nanosleep(clockid_t c, int fl, const timespec* a, timespec* b) { if (in_run) { Guard g; if (g.tf) { timespec t = *a; if (fl & TIMER_ABSTIME) { i128 d = (i128)a->tv_sec * NS + a->tv_nsec - clk_now(c); if (d < 0) d = 0; long s, n; split_ns(d, s, n); t.tv_sec = s; t.tv_nsec = n; } sleep_rel(&t); return 0; } } return REAL((int (*)(clockid_t, int, const timespec*, timespec*)), "clock_nanosleep")(c, fl, a, b); }
int usleep(useconds_t u) { timespec t = { (time_t)(u / 1000000), (long)(u % 1000000) * 1000 }; return nanosleep(&t, nullptr); }
int sched_yield(void) noexcept { if (in_run) { Guard g; if (g.tf) { timespec t = { 0, 100 }; sleep_rel(&t); return 0; } } return REAL((int (*)()), "sched_yield")(); }

static bool alloc_fails() { ++alloc_no; return fail_n > 0 && alloc_no >= fail_at && alloc_no < fail_at + fail_n; }
static void* t_alloc(size_t n, size_t al) {
    if (alloc_fails()) { errno = ENOMEM; return nullptr; }
    void* p = arena_alloc(n ? n : 1, al); ++live_blocks; ++total_blocks; live_bytes += n; if (live_blocks > peak_blocks) peak_blocks = live_blocks; return p;
}
extern void* __libc_malloc(size_t); extern void __libc_free(void*); extern void* __libc_calloc(size_t, size_t); extern void* __libc_realloc(void*, size_t); extern void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) noexcept { if (in_run) { Guard g; if (g.tf) return t_alloc(n, 16); } return __libc_malloc(n); }
void* calloc(size_t a, size_t b) noexcept { if (in_run) { Guard g; if (g.tf) { void* p = t_alloc(a * b, 16); if (p) memset(p, 0, a * b); return p; } } return __libc_calloc(a, b); }
static void t_free(void* p) {
    ablk* b = (ablk*)((char*)p - sizeof(ablk)); size_t o = (char*)p - arena;
    if (b->magic != 0xA110C || shadow[o] != 1) { bad("bad-free", p); return; }
    memset(shadow + o, 2, b->size); memset(p, 0xDD, b->size); --live_blocks; live_bytes -= b->size; b->magic = 0xF4EE;
}
void free(void* p) noexcept { if (!p) return; if (in_arena(p)) { Guard g; t_free(p); return; } __libc_free(p); }
void* realloc(void* p, size_t n) noexcept { if (p && in_arena(p)) { Guard g; void* q = t_alloc(n, 16); if (q) { ablk* b = (ablk*)((char*)p - sizeof(ablk)); memcpy(q, p, b->size < n ? b->size : n); t_free(p); } return q; } if (in_run && !p) return malloc(n); return __libc_realloc(p, n); }
int posix_memalign(void** r, size_t al, size_t n) noexcept { if (in_run) { Guard g; if (g.tf) { void* p = t_alloc(n, al); if (!p) return ENOMEM; *r = p; return 0; } } *r = __libc_memalign(al, n); return *r ? 0 : ENOMEM; }
void* aligned_alloc(size_t al, size_t n) noexcept { void* p = nullptr; return posix_memalign(&p, al, n) ? nullptr : p; }
void* memalign(size_t al, size_t n) noexcept { void* p = nullptr; return posix_memalign(&p, al, n) ? nullptr : p; }

static void raw_copy(void* d, const void* s, size_t n) { __asm__ __volatile__("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) noexcept {
    if (in_run) { Guard g; if (g.tf && n) {
        bool sd = !is_stack((uintptr_t)d), ss = !is_stack((uintptr_t)s);
        if (sd) check_access((uintptr_t)d, n, true);
        if (ss) check_access((uintptr_t)s, n, false);
        if (eng_o.wmm) { if (sd) { sched_point(); wcheck((uintptr_t)d, n, true, false); } if (ss) { sched_point(); wcheck((uintptr_t)s, n, false, false); } raw_copy(d, s, n); return d; }
        if (sd || ss) { char* dd = (char*)d; const char* s2 = (const char*)s; for (size_t i = 0; i < n; ) { size_t c = n - i > 8 ? 8 : n - i; sched_point(); raw_copy(dd + i, s2 + i, c); i += c; } return d; } } }
    raw_copy(d, s, n); return d;
}
void* memmove(void* d, const void* s, size_t n) noexcept {
    if ((char*)d <= (const char*)s || (char*)d >= (const char*)s + n) return memcpy(d, s, n);
    for (size_t i = n; i-- > 0;) ((volatile char*)d)[i] = ((const volatile char*)s)[i];
    return d;
}
void* memset(void* d, int v, size_t n) noexcept {
    if (in_run) { Guard g; if (g.tf && n && !is_stack((uintptr_t)d)) { check_access((uintptr_t)d, n, true); sched_point(); if (eng_o.wmm) { wthr& t_ = wt[cur->id]; if (!t_.V.vc[cur->id]) t_.V.vc[cur->id] = 1; wcheck((uintptr_t)d, n, true, false); } void* q = d; size_t m = n; __asm__ __volatile__("rep stosb" : "+D"(q), "+c"(m) : "a"(v) : "memory"); sched_point(); return d; } }
    void* q = d; size_t m = n; __asm__ __volatile__("rep stosb" : "+D"(q), "+c"(m) : "a"(v) : "memory"); return d;
}
int memcmp(const void* a, const void* b, size_t n) noexcept {
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    if (in_run) { Guard g; if (g.tf && n) {
        bool sa = !is_stack((uintptr_t)a), sb = !is_stack((uintptr_t)b);
        if (sa) check_access((uintptr_t)a, n, false);
        if (sb) check_access((uintptr_t)b, n, false);
        if (sa || sb) sched_point();
        if (eng_o.wmm) { if (sa) wcheck((uintptr_t)a, n, false, false); if (sb) wcheck((uintptr_t)b, n, false, false); }
        for (size_t i = 0; i < n; ++i) { if (i && i % 8 == 0 && (sa || sb)) sched_point(); int d = ((volatile unsigned char*)x)[i] - ((volatile unsigned char*)y)[i]; if (d) return d; }
        return 0; } }
    for (size_t i = 0; i < n; ++i) { int d = ((volatile unsigned char*)x)[i] - ((volatile unsigned char*)y)[i]; if (d) return d; }
    return 0;
}
// ---------- pthread mutex / condvar (state kept in the objects' own storage) ----------
// mutex: owner at word 0 ; cond: clock id at word 0
static unsigned* W(void* p) { return (unsigned*)p; }
static bool vt(Guard& g) { return g.tf; }
static uint64_t pkey(void* p) { return (uint64_t)p * 8 + cur->proc; }
static int t_lock(pthread_mutex_t* m) {
    sched_point(true);
    while (W(m)[0] != 0) { if ((int)W(m)[0] == cur->id) { bad("relock", m); stuck("self-deadlock"); } fiber* f = cur; f->key = pkey(m); f->wkind = 3; f->wseq = ++g_seq; f->has_to = false; f->state = BLOCKED; block_now(); }
    W(m)[0] = cur->id; w_lock(pkey(m)); return 0;
}
static int t_unlock(pthread_mutex_t* m) {
    if ((int)W(m)[0] != cur->id) bad("unlock-not-owner", m);
    W(m)[0] = 0; w_unlock(pkey(m));
    for (int i = 1; i <= nF; ++i) if (F[i].state == BLOCKED && F[i].wkind == 3 && F[i].key == pkey(m)) wake(&F[i], 0);
    return 0;
}
typedef int (*mfn)(pthread_mutex_t*);
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (in_run) { Guard g; if (vt(g)) return t_lock(m); } return REAL((mfn), "pthread_mutex_lock")(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (in_run) { Guard g; if (vt(g)) { sched_point(true); return t_unlock(m); } } return REAL((mfn), "pthread_mutex_unlock")(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (in_run) { Guard g; if (vt(g)) { sched_point(true); if (W(m)[0]) return EBUSY; W(m)[0] = cur->id; w_lock(pkey(m)); return 0; } } return REAL((mfn), "pthread_mutex_trylock")(m); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept { if (in_run) { Guard g; clockid_t id = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &id); raw_copy(c, "\0\0\0\0\0\0\0\0", 8); W(c)[0] = id; W(c)[1] = 0xC0D; return 0; } return REAL((int (*)(pthread_cond_t*, const pthread_condattr_t*)), "pthread_cond_init")(c, a); }
int pthread_cond_destroy(pthread_cond_t* c) noexcept { if (in_run) { Guard g; for (int i = 1; i <= nF; ++i) if (F[i].state == BLOCKED && F[i].wkind == 4 && F[i].key == pkey(c)) bad("cond-destroyed-with-waiters", c); W(c)[1] = 0; return 0; } return REAL((int (*)(pthread_cond_t*)), "pthread_cond_destroy")(c); }
static int cond_wake(pthread_cond_t* c, int n) { int w = 0; while (w < n) { fiber* b = nullptr; for (int i = 1; i <= nF; ++i) if (F[i].state == BLOCKED && F[i].wkind == 4 && F[i].key == pkey(c) && (!b || F[i].wseq < b->wseq)) b = &F[i]; if (!b) break; wake(b, 0); ++w; } return w; }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (in_run) { Guard g; sched_point(true); cond_wake(c, 1); return 0; } return REAL((int (*)(pthread_cond_t*)), "pthread_cond_signal")(c); }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (in_run) { Guard g; sched_point(true); cond_wake(c, INT_MAX); return 0; } return REAL((int (*)(pthread_cond_t*)), "pthread_cond_broadcast")(c); }
static int t_cwait(pthread_cond_t* c, pthread_mutex_t* m, int clk, const timespec* ts) {
    sched_point(true);
    if (W(c)[1] != 0xC0D) bad("cond-not-initialised", c);
    if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= NS)) return EINVAL;
    fiber* f = cur; int r = 0;
    i128 t = ts ? (i128)ts->tv_sec * NS + ts->tv_nsec : 0;
    if (ts && t <= clk_now(clk) && !lazy()) { t_unlock(m); r = ETIMEDOUT; }
    else if (eng_o.pintr > 0 && rnd01() < eng_o.pintr) { t_unlock(m); r = 0; }
    else { f->has_to = ts != nullptr; f->toclk = clk; f->to = t; f->key = pkey(c); f->wkind = 4; f->wseq = ++g_seq; f->state = BLOCKED; t_unlock(m); block_now(); f->has_to = false; r = f->wres; }
    t_lock(m); return r;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (in_run) { Guard g; return t_cwait(c, m, 0, nullptr); } return REAL((int (*)(pthread_cond_t*, pthread_mutex_t*)), "pthread_cond_wait")(c, m); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) { if (in_run) { Guard g; return t_cwait(c, m, W(c)[0], ts); } return REAL((int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)), "pthread_cond_timedwait")(c, m, ts); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts) { if (in_run) { Guard g; return t_cwait(c, m, k, ts); } return REAL((int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)), "pthread_cond_clockwait")(c, m, k, ts); }

// ---------- exit handlers: those registered by the code under test run where the scenario says ----------
struct xh { void (*fn)(void*); void* arg; int proc; };
static xh xhs[256]; static int nxh;
int __cxa_atexit(void (*f)(void*), void* a, void* dso) noexcept {
    if (in_run) { Guard g; if (g.tf) sched_point(); if (nxh < 256) { xhs[nxh].fn = f; xhs[nxh].arg = a; xhs[nxh++].proc = cur->proc; } return 0; }
    if (nxh < 256) { xhs[nxh].fn = f; xhs[nxh].arg = a; xhs[nxh++].proc = -1; }   // during static initialisation: belongs to every process
    return REAL((int (*)(void (*)(void*), void*, void*)), "__cxa_atexit")(f, a, dso);
}
int eng_next_exit_handler(void (**f)(void*), void** a) {
    while (nxh) { --nxh; xh& x = xhs[nxh];
        if ((uint64_t)x.fn < g_tstart || (uint64_t)x.fn >= g_tend) continue;   // of other libraries
        *f = x.fn; *a = x.arg; return 1; }
    return 0;
}

// ---------- initialisation of function-local statics ----------
int __cxa_guard_acquire(unsigned char* g) {
    if (g[0]) { if (in_run) w_lock(pkey(g)); return 0; }
    if (in_run) { Guard gd; if (gd.tf) {
        sched_point();
        while (g[1]) { fiber* f = cur; f->key = pkey(g); f->wkind = 3; f->wseq = ++g_seq; f->has_to = false; f->state = BLOCKED; block_now(); }
        if (g[0]) { w_lock(pkey(g)); return 0; }
        g[1] = 1; return 1; } }
    g[1] = 1; return 1;
}
static void guard_done(unsigned char* g, unsigned char v) { g[0] = v; g[1] = 0; if (in_run) for (int i = 1; i <= nF; ++i) if (F[i].state == BLOCKED && F[i].wkind == 3 && F[i].key == pkey(g)) wake(&F[i], 0); }
void __cxa_guard_release(unsigned char* g) { Guard gd; if (gd.tf) { sched_point(); w_unlock(pkey(g)); if (eng_o.wmm) { int off; wloc& l = wl_get((uintptr_t)g, 1, off); unsigned char one = 1; w_put(l, &one, off, 1, 3, false); } } guard_done(g, 1); }
void __cxa_guard_abort(unsigned char* g) { Guard gd; guard_done(g, 0); }

// ---------- scenario API ----------
void eng_spawn(void (*fn)(void*), void* arg, int proc, int) {
    if (nF >= MAXF) finish(ST_OVERFLOW);
    fiber& f = F[++nF]; f.id = nF; f.state = RUN; f.fn = fn; f.arg = arg; f.proc = proc; f.ssize = 128 << 10;
    f.stack = (char*)mmap(0, f.ssize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    void** sp = (void**)(f.stack + f.ssize - 64); sp = (void**)((uintptr_t)sp & ~15ul);
    *--sp = nullptr; *--sp = (void*)&fiber_main; for (int i = 0; i < 6; ++i) *--sp = nullptr; --sp; unsigned mx; unsigned short cw; __asm__ __volatile__("stmxcsr %0; fnstcw %1" : "=m"(mx), "=m"(cw)); ((unsigned*)sp)[0] = mx; ((unsigned*)sp)[1] = cw;
    f.sp = sp; f.prio = 0;
}
int eng_tid() { return cur->id; }
void eng_ev(const char* fmt, ...) { ++ev_seq; silent_polls = 0; log_time(); va_list ap; va_start(ap, fmt); logv(fmt, ap); va_end(ap); }
void* eng_alloc(size_t n, size_t al) { return arena_alloc(n, al); }
void eng_object(const void* p, size_t n, int lf) {
    // the block containing p: everything else in it becomes watched
    size_t o = (char*)p - arena; size_t a = o, b = o + n;
    while (a > 0 && (shadow[a - 1] == 1)) --a;
    while (b < ARENA && (shadow[b] == 1)) ++b;
    for (size_t i = a; i < b; ++i) if (i < o || i >= o + n) shadow[i] = 4;
    memset(shadow + o, lf ? 5 : 3, n);
}
void* eng_map2(size_t n, void** second) {
    static size_t used; const size_t CAP = 1u << 20;
    if (!m2n) {
        int fd = memfd_create("m2", 0); if (fd < 0 || ftruncate(fd, CAP)) finish(ST_OVERFLOW);
        m2a = (char*)mmap((void*)0x300000000000, CAP, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); m2b = (char*)mmap((void*)0x310000801000, CAP, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); m2n = CAP; close(fd); }
    size_t o = used; used += (n + 127) & ~63ul; if (used > CAP) finish(ST_OVERFLOW);
    *second = m2b + o; return m2a + o;
}
// memory whose address differs from that of the others only in its upper half
void* eng_far(size_t n) {
    static size_t used; char* p = (char*)0x400000000000 + (++used << 32);
    if (n > 4096 || used > 512 || mmap(p, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != p) finish(ST_OVERFLOW);
    return p;
}
int eng_shared_inc() { static int n; return ++n; }
void eng_fmt_time(char* o, long s, long n) { eng_time(o, (i128)s * NS + n); }
void eng_deadline(int clk, long s, long n) { if (clk < 0) cur->has_dl = false; else { cur->has_dl = true; cur->dlclk = clk; cur->dl = (i128)s * NS + n; } }
void eng_now(int clk, timespec* ts) { long s, n; split_ns(clk_now(clk), s, n); ts->tv_sec = s; ts->tv_nsec = n; }
void eng_window(int on) { cur->win = on; }
int eng_waits(int d) { static int n; return n += d; } void eng_settle() { settled = total_blocks; } long eng_settled() { return settled; }
long eng_live_blocks() { return live_blocks; } long eng_live_bytes() { return live_bytes; } long eng_peak_blocks() { return peak_blocks; } long eng_total_blocks() { return total_blocks; }
unsigned eng_rand(unsigned n) { return rnd32() % n; }
void eng_fail_alloc(long nth, long cnt) { alloc_no = 0; fail_at = nth; fail_n = cnt; }
void eng_point() { Guard g; sched_point(); }
void eng_flush() { if (in_run) { post_instruction(); flush_all(cur); } }
void eng_gate() { if (!eng_o.order) { sched_point(eng_o.mode != 3); return; } cur->state = GATED; block_now(); }
void eng_sleep_until(int clk, long s, long n) { Guard g; fiber* f = cur; i128 t = (i128)s * NS + n; if (t <= clk_now(clk)) return; f->has_to = true; f->toclk = clk; f->to = t; f->wkind = 5; f->key = 0; f->state = BLOCKED; block_now(); f->has_to = false; }

eng_result* eng_init(const char* table, size_t cap) {
    FILE* f = fopen(table, "rb"); if (!f) { perror(table); exit(3); }
    uint64_t h[3]; if (fread(h, 8, 3, f) != 3) exit(3);
    g_tstart = h[0]; g_tend = h[1]; g_nins = h[2];
    g_ins = (insn*)mmap(0, g_nins * sizeof(insn) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (fread(g_ins, sizeof(insn), g_nins, f) != g_nins) exit(3); fclose(f);
    g_idx = (uint32_t*)mmap(0, (g_tend - g_tstart + 16) * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    for (size_t i = 0; i < g_nins; ++i) g_idx[g_ins[i].addr - g_tstart] = i + 1;
    R_cap = cap; R = (eng_result*)mmap(0, sizeof(eng_result) + cap + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    d_lo = (char*)dlsym(RTLD_DEFAULT, "__data_start"); d_hi = (char*)dlsym(RTLD_DEFAULT, "_end");
    arena = (char*)mmap((void*)0x200000000000, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = (unsigned char*)mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return R;
}
int eng_run(void (*setup)(void*), void* arg) {
    R->len = 0; R->log[0] = 0; R->status = ST_RUNNING; R->points = R->steps = 0;
    pid_t pid = fork();
    if (pid < 0) { R->status = ST_OVERFLOW; return ST_OVERFLOW; }
    if (pid == 0) {
        struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = 60; rl.rlim_max = 70; setrlimit(RLIMIT_CPU, &rl);
        rng = 88172645463325252ull ^ ((uint64_t)eng_o.seed * 0x9E3779B97F4A7C15ull); for (int i = 0; i < 8; ++i) rnd32();
        mono = (i128)1000 * NS + 999999000; realoff = (i128)700000 * NS + 123; bootoff = (i128)5000 * NS + 777; 
        if (!eng_o.maxpoints) eng_o.maxpoints = 200000;
        if (!eng_o.maxsteps) eng_o.maxsteps = 3000000;
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, 0);
        if (eng_o.mode == 2) { nchg = eng_o.depth; long n = eng_o.npoints > 1 ? eng_o.npoints : 100; for (int i = 0; i < nchg && i < 16; ++i) chg_pts[i] = rnd32() % n; }
        atop = 4096; setup(arg);
        if (eng_o.mode == 2) { int pr[MAXF]; for (int i = 0; i < nF; ++i) pr[i] = i; for (int i = nF - 1; i > 0; --i) { int j = rnd32() % (i + 1); int t = pr[i]; pr[i] = pr[j]; pr[j] = t; } for (int i = 0; i < nF; ++i) F[i + 1].prio = 100 + pr[i]; }
        bool multi = false; for (int i = 1; i <= nF; ++i) if (F[i].proc) multi = true;
        if (multi) { size_t n = d_hi - d_lo; for (int p = 0; p < 4; ++p) { d_img[p] = (char*)mmap(0, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); raw_copy(d_img[p], d_lo, n); } } 
        log_time(); time_dirty = true; log_time();
        in_run = true;
        fiber m; memset(&m, 0, sizeof m); m.id = 0; cur = &m; fiber* n = pick_next(); if (!n) finish(ST_DONE);
        cur = &m; set_proc(n->proc); cur = n; eng_switch(&m.sp, n->sp);
        finish(ST_DONE);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (R->status == ST_RUNNING) { R->status = ST_CRASH; size_t room = R_cap - R->len; if (room > 64) { int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0; if (sig == SIGKILL) { R->status = ST_OVERFLOW; return ST_OVERFLOW; } // ended from outside: no verdict
  R->len += snprintf(R->log + R->len, room, "{\"k\":\"crash\",\"why\":\"signal %d\"}\n", sig); } }
    return R->status;
}
}
// a failed non-throwing allocation must not unwind an exception under the single-step trap
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
// std::chrono clocks read the virtual time directly
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(seconds(t.tv_sec) + nanoseconds(t.tv_nsec)); }
system_clock::time_point system_clock::now() noexcept { timespec t; clock_gettime(CLOCK_REALTIME, &t); return time_point(seconds(t.tv_sec) + nanoseconds(t.tv_nsec)); }
} } }
