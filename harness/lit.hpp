// Litmus programs: operations with constant orders inlined into thread functions (generated by lib/litmus.py).
#pragma once
#include <cstring>
#include <chrono>
#include <vector>
#include <type_traits>
#include <sys/syscall.h>
#ifdef H_PTHREAD
#undef SYS_futex
#undef __NR_futex
#endif
#include "engine.h"
#include <boost/atomic.hpp>
#include <boost/atomic/ipc_atomic.hpp>
#include <boost/atomic/ipc_atomic_ref.hpp>
#include <boost/atomic/ipc_atomic_flag.hpp>
#ifdef LIT_WMM
#define H_ON() eng_window(1)
#define H_OFF() eng_window(0)
#else
extern volatile int lit_tick;
#define H_ON() do { eng_window(1); STEP_ON(); } while (0)
#define H_OFF() do { (void)lit_tick; STEP_OFF(); eng_window(0); } while (0)
#endif
struct LitProg { const char* id; int nt; void (*fn[6])(); void (*fin)(); };
std::vector<LitProg>& lit_progs();
void lit_put(int slot, int v, int f);
// small integers as values of the types under test
template <unsigned N> struct Blk { unsigned char c[N]; };
enum class E8 : unsigned char { z }; enum class E16 : short { z }; enum E32 : unsigned { e32z }; enum class E64 : long long { z };
template <class T, class = void> struct C;
template <> struct C<bool> { static bool v(int k) { return k & 1; } static int n(bool x) { return x; } };
template <class T> struct C<T, typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value || std::is_same<T, __int128>::value || std::is_same<T, unsigned __int128>::value>::type> {
    static T v(int k) { return (T)k; }
    static int n(T x) { return sizeof(T) == 1 ? (int)(signed char)x : sizeof(T) == 2 ? (int)(short)x : (int)x; } };
template <class T> struct C<T, typename std::enable_if<std::is_floating_point<T>::value>::type> { static T v(int k) { return (T)k; } static int n(T x) { return (int)x; } };
template <class T> struct C<T*> { static T* v(int k) { return reinterpret_cast<T*>(0x10000) + k; } static int n(T* p) { return (int)(p - reinterpret_cast<T*>(0x10000)); } };
template <unsigned N> struct C< Blk<N> > { static Blk<N> v(int k) { Blk<N> b; for (unsigned i = 0; i < N; ++i) b.c[i] = (unsigned char)(k + i * 3); return b; }
    static int n(Blk<N> const& b) { int k = (signed char)b.c[0]; for (unsigned i = 1; i < N; ++i) if (b.c[i] != (unsigned char)(k + i * 3)) return -777; return k; } };
// plain variables shared by the threads: in the weak memory machine their accesses are visible to it
#ifdef LIT_WMM
#define RD(d) __atomic_load_n(&d, __ATOMIC_RELAXED)
#define WRI(d, x) __atomic_store_n(&d, x, __ATOMIC_RELAXED)
#else
#define RD(d) d
#define WRI(d, x) (void)(d = (x))
#endif
