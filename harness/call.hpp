// Operation table shared by the sequential and the concurrent harness.
#pragma once
#include <cstring>
#include <cstddef>
#include <cstdint>
#include <chrono>
#include <new>
#include <string>
#include <vector>
#include <map>
#include <type_traits>
#include <limits>
#include <sys/syscall.h>
#ifdef H_PTHREAD
#undef SYS_futex
#undef __NR_futex
#endif
#include "engine.h"

struct Call {
    unsigned char a[128], b[128], v[128]; // operands and returned value (value bytes)
    int f;            // returned flag, 2: none
    int mo, mo2;      // memory orders as boost::memory_order values, -1: leave out
    int clk; long sec, nsec; int unit; // timed waits: absolute deadline (clk) or relative duration
};
typedef void (*opfn)(void*, Call&);
enum { A_NONE = 0, A_A = 1, A_B = 2, A_BIT = 4, A_DIFF = 8 };
enum { O_RMW = 0, O_LOAD, O_STORE, O_NONE, O_CAS }; // which orders are valid
enum { R_NONE = 0, R_V = 1, R_F = 2 };
struct OpDef { const char* name; const char* var; opfn fn; int args; int ord; int ret; long kconst; };
struct TypeDef {
    std::string id; char wrap; const char* kind; // kind: int ptr raw fp flag bool
    unsigned n;        // value bytes
    unsigned size, align; // object size / alignment
    unsigned es;       // pointer element size
    bool sgn; bool lock_free; bool native_wait;
    void (*make)(void*, const unsigned char*); // construct the object with a value
    void (*hw)(const char* op, const unsigned char* pre, const unsigned char* a, unsigned char* out); // FP: the language's own operator
    std::vector<OpDef> ops;
};
std::map<std::string, TypeDef>& types();
extern unsigned long h_stepmask;   // 0x100 inside the engine
#define H_ON() __asm__ __volatile__("leaq -128(%%rsp),%%rsp; pushfq; orq %0,(%%rsp); popfq; leaq 128(%%rsp),%%rsp" :: "r"(h_stepmask) : "memory", "cc")
#define H_OFF() STEP_OFF()
// leaves different garbage in the stack below the caller every time: nothing may depend on what uninitialised storage held
static inline void __attribute__((noinline)) h_dirty() {
    static unsigned char k; volatile unsigned char g[3072]; unsigned char f = (unsigned char)(k += 37);
    for (unsigned i = 0; i < sizeof g; ++i) g[i] = (unsigned char)(f + (i & 7) * 11) | 1;
    __asm__ __volatile__("" :: "r"(g) : "memory");
}
