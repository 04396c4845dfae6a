// Deterministic instruction-level execution engine: see DESIGN.md "Engine".
#pragma once
#include <cstdint>
#include <cstddef>
#include <time.h>
extern "C" {
// ---- used by scenario code (inside a run) ----
void eng_spawn(void (*fn)(void*), void* arg, int proc, int started_blocked);
int  eng_tid();                      // 1-based id of the running fiber
void eng_ev(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // append an event (JSON text)
void* eng_alloc(size_t size, size_t align);  // object memory (guarded, shared between virtual processes)
void* eng_far(size_t n);
void* eng_map2(size_t size, void** second);  // memory visible at two addresses
int eng_shared_inc();
int eng_waits(int d); void eng_settle(); long eng_settled();
int eng_next_exit_handler(void (**f)(void*), void** a);                // counts up from 1, the same counter in all virtual processes
void eng_object(const void* p, size_t n, int lock_free); // declare object bytes; neighbours get watched
void eng_fmt_time(char* out, long sec, long nsec); // a time as it appears in the log
void eng_deadline(int clk, long sec, long nsec); // current fiber's pending user deadline (clk<0: none)
void eng_now(int clk, timespec* ts);
int  eng_suspended();                // freeze the current fiber forever was requested
void eng_window(int on);             // marks API window (suspension points only inside)
long eng_live_blocks(); long eng_live_bytes(); long eng_peak_blocks(); long eng_total_blocks();
unsigned eng_rand(unsigned n);
void eng_fail_alloc(long nth, long count);   // allocations [nth, nth+count) fail (1-based), from now
void eng_point();                    // explicit scheduling point
void eng_flush();                    // the running fiber's delayed stores reach memory
void eng_gate();                     // before an operation: waits for its turn in a guided run
void eng_sleep_until(int clk, long sec, long nsec); // virtual-time sleep of a scenario thread
// ---- used by the driver main ----
struct eng_opts {
    int mode;        // 0 preemption-bounded plan, 1 random, 2 pct, 3 given slices
    int tso;         // 0 SC, 1 store buffers
    unsigned seed;
    int perm;        // base order
    int nplan; struct { long idx; int tid; } plan[8];
    double psw;      // switch probability (random mode)
    int depth;       // pct change points
    long npoints;    // expected points (pct)
    double pflush;   // store buffer flush probability per point
    double ptime;    // probability of a time jump
    double pintr;    // probability of EINTR/spurious at a blocking call
    double pspur;
    long suspend_pt; int suspend_tid; // suspend fiber at its own n-th point inside a window
    long step_pt; long step_delta_s;  // step CLOCK_REALTIME at a point
    int nosys, nap;       // the system has no FUTEX_WAIT_BITSET
    int wmm; double pold; long runlim;   // weak memory machine: probability of reading an old message; points before a spinning fiber is preempted
    long maxpoints; long maxsteps;
    int coarse;      // switch threads only before atomic read-modify-writes and system calls
    const int* slices; int nslices; long tsec, tnsec; // mode 3: which thread runs next, from one such point to the next; 0: time moves on to this moment of the monotonic clock
    const int* order; int norder; // guided run: order in which gated fibers proceed, 0 advances time
};
extern struct eng_opts eng_o;
struct eng_result { long points; long steps; int status; size_t len; int nthreads; long tpoints[64]; char log[1]; };
enum { ST_RUNNING=0, ST_DONE=1, ST_QUIET=2, ST_STUCK=3, ST_CRASH=4, ST_OVERFLOW=5 };
struct eng_result* eng_init(const char* table, size_t logcap);
int eng_run(void (*setup)(void*), void* arg); // fork, run, wait; returns status
}
#define STEP_ON()  __asm__ __volatile__("leaq -128(%%rsp),%%rsp; pushfq; orq $0x100,(%%rsp); popfq; leaq 128(%%rsp),%%rsp" ::: "memory","cc")
#define STEP_OFF() __asm__ __volatile__("leaq -128(%%rsp),%%rsp; pushfq; andq $~0x100,(%%rsp); popfq; leaq 128(%%rsp),%%rsp" ::: "memory","cc")
