#pragma once
#include "call.hpp"
#include <boost/atomic.hpp>
#include <boost/atomic/ipc_atomic.hpp>
#include <boost/atomic/ipc_atomic_ref.hpp>
#include <boost/atomic/ipc_atomic_flag.hpp>
#include <boost/atomic/posix_clock_traits_fwd.hpp>

namespace h {
using boost::memory_order;
// user clocks
// clocks without a POSIX mapping, all derived from CLOCK_MONOTONIC: at(ns) is the earliest reading at or after that monotonic instant
template <class Rep, class Period, class Conv> struct clk_user { typedef std::chrono::duration<Rep, Period> duration; typedef Rep rep; typedef Period period; typedef std::chrono::time_point<clk_user> time_point; static const bool is_steady = true;
    static time_point now() noexcept { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration(Conv::now(t.tv_sec * 1000000000ll + t.tv_nsec))); }
    static time_point at(long s, long n) { return time_point(duration(Conv::at(s, n))); } };
struct conv_plain { static long long now(long long x) { return x; } static long long at(long s, long n) { return s * 1000000000ll + n; } };
struct conv_pico { static long long now(long long x) { return x * 1000; } static long long at(long s, long n) { return (s * 1000000000ll + n) * 1000 - 500; } };   // not a whole number of nanoseconds
struct conv_zero { static long long now(long long x) { return x - 1000500000000ll; } static long long at(long s, long n) { return s >= 9000000000l ? 0x7fffffffffffffffll : (s - 1000) * 1000000000ll + n - 500000000; } };   // counts from about the start of the process; its last instant stands for "no deadline"
struct conv_half { static long long now(long long x) { return x / 2; } static long long at(long s, long n) { return (s * 1000000000ll + n) / 2; } };   // slow (even deadlines only)
typedef clk_user<long long, std::nano, conv_plain> clk_plain; typedef clk_user<long long, std::pico, conv_pico> clk_pico; typedef clk_user<long long, std::nano, conv_zero> clk_zero; typedef clk_user<long long, std::nano, conv_half> clk_half;
template <int Id> struct clk_posix { typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<clk_posix> time_point; static const bool is_steady = true;
    static time_point now() noexcept { timespec t; clock_gettime(Id, &t); return time_point(std::chrono::seconds(t.tv_sec) + std::chrono::nanoseconds(t.tv_nsec)); } };
}
namespace boost { namespace atomics {
template <int Id> struct posix_clock_traits< h::clk_posix<Id> > {
    static constexpr clockid_t clock_id = Id;
    static timespec to_timespec(typename h::clk_posix<Id>::time_point tp) noexcept {
        timespec ts{}; long long n = tp.time_since_epoch().count(); ts.tv_sec = n / 1000000000; long r = n % 1000000000; if (r < 0) { r += 1000000000; --ts.tv_sec; } ts.tv_nsec = r; return ts; }
};
template <int Id> constexpr clockid_t posix_clock_traits< h::clk_posix<Id> >::clock_id;
} }
namespace h {
template <class T> struct VT { static const unsigned n = sizeof(T);
    static void put(unsigned char* d, T const& v) { std::memcpy(d, &v, sizeof(T)); }
    static T get(const unsigned char* s) { alignas(T) unsigned char b[sizeof(T)]; std::memcpy(b, s, sizeof(T)); return *reinterpret_cast<T*>(b); } };
template <> struct VT<long double> { static const unsigned n = 10;
    static void put(unsigned char* d, long double const& v) { std::memcpy(d, &v, 10); }
    static long double get(const unsigned char* s) { long double v; std::memset(&v, 0x5A, sizeof v); std::memcpy(&v, s, 10); return v; } };
template <> struct VT<bool> { static const unsigned n = 1;
    static void put(unsigned char* d, bool v) { unsigned char c; std::memcpy(&c, &v, 1); *d = c; } static bool get(const unsigned char* s) { return *s & 1; } };
template <unsigned N> struct Blk { unsigned char c[N]; };
struct P8 { unsigned char a; int b; };         // 3 padding bytes
struct P16 { long a; unsigned char b; };       // 7 padding bytes
struct P12 { short a; int b; unsigned char c; }; // interior and tail padding
template <> struct VT<P8> { static const unsigned n = 5; static void put(unsigned char* d, P8 const& v) { d[0] = v.a; std::memcpy(d + 1, &v.b, 4); }
    static P8 get(const unsigned char* s) { P8 v; std::memset(&v, 0x3C, sizeof v); v.a = s[0]; std::memcpy(&v.b, s + 1, 4); return v; } };
template <> struct VT<P16> { static const unsigned n = 9; static void put(unsigned char* d, P16 const& v) { std::memcpy(d, &v.a, 8); d[8] = v.b; }
    static P16 get(const unsigned char* s) { P16 v; std::memset(&v, 0x3C, sizeof v); std::memcpy(&v.a, s, 8); v.b = s[8]; return v; } };
template <> struct VT<P12> { static const unsigned n = 7; static void put(unsigned char* d, P12 const& v) { std::memcpy(d, &v.a, 2); std::memcpy(d + 2, &v.b, 4); d[6] = v.c; }
    static P12 get(const unsigned char* s) { P12 v; std::memset(&v, 0x3C, sizeof v); std::memcpy(&v.a, s, 2); std::memcpy(&v.b, s + 2, 4); v.c = s[6]; return v; } };
template <unsigned N> struct NDC { unsigned char c[N]; explicit NDC(int x) noexcept { for (unsigned i = 0; i < N; ++i) c[i] = (unsigned char)x; } bool operator==(NDC const&) const = delete; }; // no default constructor
template <unsigned N> struct VT< NDC<N> > { static const unsigned n = N; static void put(unsigned char* d, NDC<N> const& v) { std::memcpy(d, v.c, N); } static NDC<N> get(const unsigned char* s) { NDC<N> v(0); std::memcpy(v.c, s, N); return v; } };
enum class E8 : unsigned char { z }; enum E32 : unsigned { e32z }; enum class E64 : long long { z }; enum class E16 : short { z };

template <class T> struct WA { typedef boost::atomic<T> ob; static const char id = 'A'; static ob& get(void* p) { return *static_cast<ob*>(p); } static unsigned size() { return sizeof(ob); } static unsigned align() { return alignof(ob); } static void make(void* p, T const& v) { new (p) ob(v); } static bool lf(void* p) { return get(p).is_lock_free(); } static const bool alf = ob::is_always_lock_free; static const bool anw = ob::always_has_native_wait_notify; };
template <class T> struct WI { typedef boost::ipc_atomic<T> ob; static const char id = 'I'; static ob& get(void* p) { return *static_cast<ob*>(p); } static unsigned size() { return sizeof(ob); } static unsigned align() { return alignof(ob); } static void make(void* p, T const& v) { new (p) ob(v); } static const bool alf = ob::is_always_lock_free; static const bool anw = ob::always_has_native_wait_notify; };
template <class T> struct WR { typedef boost::atomic_ref<T> ob; static const char id = 'R'; static ob get(void* p) { return ob(*static_cast<T*>(p)); } static unsigned size() { return sizeof(T); } static unsigned align() { return ob::required_alignment; } static void make(void* p, T const& v) { new (p) T(v); } static const bool alf = ob::is_always_lock_free; static const bool anw = ob::always_has_native_wait_notify; };
template <class T> struct WJ { typedef boost::ipc_atomic_ref<T> ob; static const char id = 'J'; static ob get(void* p) { return ob(*static_cast<T*>(p)); } static unsigned size() { return sizeof(T); } static unsigned align() { return ob::required_alignment; } static void make(void* p, T const& v) { new (p) T(v); } static const bool alf = ob::is_always_lock_free; static const bool anw = ob::always_has_native_wait_notify; };

// volatile objects, references to volatile objects, read-only references
template <class T> struct WV : WA<T> { typedef boost::atomic<T> ob; static const char id = 'V'; static volatile ob& get(void* p) { return *static_cast<volatile ob*>(p); } };
template <class T> struct WU : WR<T> { typedef boost::atomic_ref<volatile T> ob; static const char id = 'U'; static ob get(void* p) { return ob(*static_cast<volatile T*>(p)); } static unsigned align() { return ob::required_alignment; } static const bool alf = ob::is_always_lock_free; static const bool anw = ob::always_has_native_wait_notify; };
template <class T> struct WK : WR<T> { typedef boost::atomic_ref<const T> ob; static const char id = 'K'; static ob get(void* p) { return ob(*static_cast<const T*>(p)); } static unsigned align() { return ob::required_alignment; } static const bool alf = ob::is_always_lock_free; static const bool anw = ob::always_has_native_wait_notify; };

#define MO ((memory_order)c.mo)
#define MO2 ((memory_order)c.mo2)
#define NI __attribute__((noinline))
// F(fn, setup, expression statement, output)
#define F(fn, setup, stmt, out) NI static void fn(void* p, Call& c) { c.f = 2; setup; H_ON(); { auto&& o = W::get(p); stmt; } H_OFF(); out; (void)p; }
#define PUTV VT<T>::put(c.v, r)
#define SETV T r = VT<T>::get(c.v)

template <class W, class T> struct Gen {
    typedef VT<T> V;
    F(load, SETV, r = o.load(MO), PUTV)
    F(load_d, SETV, r = o.load(), PUTV)
    F(conv, SETV, r = o, PUTV)
    F(store, T a = V::get(c.a), o.store(a, MO), )
    F(store_d, T a = V::get(c.a), o.store(a), )
    F(assign, T a = V::get(c.a); SETV, r = (o = a), PUTV)
    F(exchange, T a = V::get(c.a); SETV, r = o.exchange(a, MO), PUTV)
    F(exchange_d, T a = V::get(c.a); SETV, r = o.exchange(a), PUTV)
    F(cas_s, T r = V::get(c.a); T b = V::get(c.b); bool f, f = o.compare_exchange_strong(r, b, MO, MO2), PUTV; c.f = f)
    F(cas_s1, T r = V::get(c.a); T b = V::get(c.b); bool f, f = o.compare_exchange_strong(r, b, MO), PUTV; c.f = f)
    F(cas_s0, T r = V::get(c.a); T b = V::get(c.b); bool f, f = o.compare_exchange_strong(r, b), PUTV; c.f = f)
    F(cas_w, T r = V::get(c.a); T b = V::get(c.b); bool f, f = o.compare_exchange_weak(r, b, MO, MO2), PUTV; c.f = f)
    F(cas_w1, T r = V::get(c.a); T b = V::get(c.b); bool f, f = o.compare_exchange_weak(r, b, MO), PUTV; c.f = f)
    F(load_cp, SETV, auto o2(o); r = o2.load(MO), PUTV)
    F(load_val, SETV, auto o2(o); r = o2.value(), PUTV)   // not atomic: only for a single thread
    F(store_cp, T a = V::get(c.a), auto o2(o); { auto o3(o2); o3.store(a, MO); }, )
    F(exchange_cp, T a = V::get(c.a); SETV, auto o2(o); { auto o3(boost::make_atomic_ref(o2.value())); (void)o3; } r = o2.exchange(a, MO), PUTV)
    F(wait_cp, T a = V::get(c.a); SETV, auto o2(o); r = o2.wait(a, MO), PUTV)
    F(notify_one_cp, , auto o2(o); o2.notify_one(), )
    F(notify_all_cp, , auto o2(o); { auto o3(o2); } o2.notify_all(), )
    F(mkref, , (void)o, )
    template <class U = T> NI static void init0(void* p, Call& c) { c.f = 2; H_ON(); new (p) typename W::ob(); H_OFF(); }
    static void ctor(std::vector<OpDef>& v, std::true_type) { v.push_back({"init0", "", init0<>, 0, O_NONE, R_NONE, 0}); }
    static void ctor(std::vector<OpDef>&, std::false_type) {}
    static void refs(std::vector<OpDef>& v, std::true_type) { v.push_back({"load", "cp", load_cp, 0, O_LOAD, R_V, 0}); v.push_back({"mkref", "", mkref, 0, O_NONE, R_NONE, 0}); }
    static void refs2(std::vector<OpDef>& v, std::true_type) { v.push_back({"load", "val", load_val, 0, O_NONE, R_V, 0}); v.push_back({"store", "cp", store_cp, A_A, O_STORE, R_NONE, 0}); v.push_back({"exchange", "cp", exchange_cp, A_A, O_RMW, R_V, 0});
#ifndef H_NOWAIT
        v.push_back({"wait", "cp", wait_cp, A_A, O_LOAD, R_V, 0}); v.push_back({"notify_one", "cp", notify_one_cp, 0, O_NONE, R_NONE, 0}); v.push_back({"notify_all", "cp", notify_all_cp, 0, O_NONE, R_NONE, 0});
#endif
    }
    static void refs2(std::vector<OpDef>&, std::false_type) {}
    static void refs(std::vector<OpDef>&, std::false_type) {}
    static void base(std::vector<OpDef>& v) {
        refs(v, std::integral_constant<bool, (W::id == 'R' || W::id == 'J' || W::id == 'U')>());
#ifdef H_REFS
        refs2(v, std::integral_constant<bool, (W::id == 'R')>());
#endif
        ctor(v, std::integral_constant<bool, (W::id == 'A' || W::id == 'I') && std::is_default_constructible<T>::value>());
        v.push_back({"load", "", load, 0, O_LOAD, R_V, 0}); v.push_back({"load", "d", load_d, 0, O_NONE, R_V, 0}); v.push_back({"load", "conv", conv, 0, O_NONE, R_V, 0});
        v.push_back({"store", "", store, A_A, O_STORE, R_NONE, 0}); v.push_back({"store", "d", store_d, A_A, O_NONE, R_NONE, 0}); v.push_back({"assign", "", assign, A_A, O_NONE, R_V, 0});
        v.push_back({"exchange", "", exchange, A_A, O_RMW, R_V, 0}); v.push_back({"exchange", "d", exchange_d, A_A, O_NONE, R_V, 0});
        v.push_back({"cas_s", "", cas_s, A_A | A_B, O_CAS, R_V | R_F, 0}); v.push_back({"cas_s", "1", cas_s1, A_A | A_B, O_RMW, R_V | R_F, 0}); v.push_back({"cas_s", "0", cas_s0, A_A | A_B, O_NONE, R_V | R_F, 0});
        v.push_back({"cas_w", "", cas_w, A_A | A_B, O_CAS, R_V | R_F, 0}); v.push_back({"cas_w", "1", cas_w1, A_A | A_B, O_RMW, R_V | R_F, 0});
    }
    // waiting
    F(wait, T a = V::get(c.a); SETV, r = o.wait(a, MO), PUTV)
    F(notify_one, , o.notify_one(), )
    F(notify_all, , o.notify_all(), )
    template <class Clock, class D> static std::chrono::time_point<Clock, D> tp(Call& c) { return std::chrono::time_point<Clock, D>(std::chrono::duration_cast<D>(std::chrono::seconds(c.sec) + std::chrono::nanoseconds(c.nsec))); }
    struct WRes { T value; bool timeout; WRes(T const& v) : value(v), timeout(false) {} template <class U> WRes& operator=(boost::atomics::wait_result<U> const& x) { T v = x.value; value = v; timeout = x.timeout; return *this; } };
#define PUTW VT<T>::put(c.v, r.value); c.f = r.timeout
#define TW(fn, stmt) NI static void fn(void* p, Call& c) { c.f = 2; T a = V::get(c.a); WRes r(VT<T>::get(c.v)); H_ON(); { auto&& o = W::get(p); stmt; } H_OFF(); PUTW; }
    TW(wu_steady, r = o.wait_until(a, (tp<std::chrono::steady_clock, std::chrono::steady_clock::duration>(c)), MO))
    TW(wu_system, r = o.wait_until(a, (tp<std::chrono::system_clock, std::chrono::system_clock::duration>(c)), MO))
    TW(wu_plain, r = o.wait_until(a, clk_plain::at(c.sec, c.nsec), MO))
    TW(wu_pico, r = o.wait_until(a, clk_pico::at(c.sec, c.nsec), MO))
    TW(wu_zero, r = o.wait_until(a, clk_zero::at(c.sec, c.nsec), MO))
    TW(wu_half, r = o.wait_until(a, clk_half::at(c.sec, c.nsec), MO))
    TW(wu_mono, r = o.wait_until(a, (tp<clk_posix<CLOCK_MONOTONIC>, std::chrono::nanoseconds>(c)), MO))
    TW(wu_real, r = o.wait_until(a, (tp<clk_posix<CLOCK_REALTIME>, std::chrono::nanoseconds>(c)), MO))
    TW(wu_boot, r = o.wait_until(a, (tp<clk_posix<CLOCK_BOOTTIME>, std::chrono::nanoseconds>(c)), MO))
    TW(wu_sec, r = o.wait_until(a, (tp<std::chrono::system_clock, std::chrono::seconds>(c)), MO))
    TW(wf_ns, r = o.wait_for(a, std::chrono::seconds(c.sec) + std::chrono::nanoseconds(c.nsec), MO))
    TW(wf_us, r = o.wait_for(a, std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::seconds(c.sec) + std::chrono::nanoseconds(c.nsec)), MO))
    TW(wf_s, r = o.wait_for(a, std::chrono::seconds(c.sec), MO))
    static void waits(std::vector<OpDef>& v) {
        v.push_back({"wait", "", wait, A_A, O_LOAD, R_V, 0});
        v.push_back({"notify_one", "", notify_one, 0, O_NONE, R_NONE, 0}); v.push_back({"notify_all", "", notify_all, 0, O_NONE, R_NONE, 0});
#define TWR(fn) v.push_back({"twait", #fn, fn, A_A, O_LOAD, R_V | R_F, 0});
#ifndef H_FEWWAITS
        TWR(wu_system) TWR(wu_plain) TWR(wu_pico) TWR(wu_zero) TWR(wu_half) TWR(wu_real) TWR(wu_boot) TWR(wu_sec) TWR(wf_us) TWR(wf_s)
#endif
        TWR(wu_steady) TWR(wu_mono) TWR(wf_ns)
    }
};
// arithmetic with operand type D
template <class W, class T, class D> struct Arith {
    typedef VT<D> VD; typedef VT<T> V;
    F(fetch_add, D a = VD::get(c.a); SETV, r = o.fetch_add(a, MO), PUTV)
    F(fetch_sub, D a = VD::get(c.a); SETV, r = o.fetch_sub(a, MO), PUTV)
    F(add, D a = VD::get(c.a); SETV, r = o.add(a, MO), PUTV)
    F(sub, D a = VD::get(c.a); SETV, r = o.sub(a, MO), PUTV)
    F(o_add, D a = VD::get(c.a), o.opaque_add(a, MO), )
    F(o_sub, D a = VD::get(c.a), o.opaque_sub(a, MO), )
    F(pluseq, D a = VD::get(c.a); SETV, r = (o += a), PUTV)
    F(minuseq, D a = VD::get(c.a); SETV, r = (o -= a), PUTV)
    F(fetch_add_d, D a = VD::get(c.a); SETV, r = o.fetch_add(a), PUTV)
    static void reg(std::vector<OpDef>& v) {
        v.push_back({"fetch_add", "", fetch_add, A_A | A_DIFF, O_RMW, R_V, 0}); v.push_back({"fetch_sub", "", fetch_sub, A_A | A_DIFF, O_RMW, R_V, 0});
        v.push_back({"fetch_add", "d", fetch_add_d, A_A | A_DIFF, O_NONE, R_V, 0});
        v.push_back({"add", "", add, A_A | A_DIFF, O_RMW, R_V, 0}); v.push_back({"sub", "", sub, A_A | A_DIFF, O_RMW, R_V, 0});
        v.push_back({"o_add", "", o_add, A_A | A_DIFF, O_RMW, R_NONE, 0}); v.push_back({"o_sub", "", o_sub, A_A | A_DIFF, O_RMW, R_NONE, 0});
        v.push_back({"pluseq", "", pluseq, A_A | A_DIFF, O_NONE, R_V, 0}); v.push_back({"minuseq", "", minuseq, A_A | A_DIFF, O_NONE, R_V, 0});
    }
};
template <class W, class T, class D> struct IncDec {
    typedef VT<D> VD; typedef VT<T> V;
    F(preinc, SETV, r = ++o, PUTV)
    F(postinc, SETV, r = o++, PUTV)
    F(predec, SETV, r = --o, PUTV)
    F(postdec, SETV, r = o--, PUTV)
    F(add_t, D a = VD::get(c.a); bool f, f = o.add_and_test(a, MO), c.f = f)
    F(sub_t, D a = VD::get(c.a); bool f, f = o.sub_and_test(a, MO), c.f = f)
    template <long K> struct C {
        F(fetch_add, SETV, r = o.fetch_add((D)K, MO), PUTV)
        F(fetch_sub, SETV, r = o.fetch_sub((D)K, MO), PUTV)
        F(add, SETV, r = o.add((D)K, MO), PUTV)
        F(sub, SETV, r = o.sub((D)K, MO), PUTV)
        F(o_add, , o.opaque_add((D)K, MO), )
        F(o_sub, , o.opaque_sub((D)K, MO), )
        F(add_t, bool f, f = o.add_and_test((D)K, MO), c.f = f)
        F(sub_t, bool f, f = o.sub_and_test((D)K, MO), c.f = f)
        static void reg(std::vector<OpDef>& v) {
#define K(nm, r) v.push_back({#nm, "k", nm, A_DIFF, O_RMW, r, Kv});
            const long Kv = (long)K_;
            K(fetch_add, R_V) K(fetch_sub, R_V) K(add, R_V) K(sub, R_V) K(o_add, R_NONE) K(o_sub, R_NONE) K(add_t, R_F) K(sub_t, R_F)
#undef K
        }
        static const long K_ = K;
    };
    static void reg(std::vector<OpDef>& v) {
        v.push_back({"preinc", "", preinc, 0, O_NONE, R_V, 0}); v.push_back({"postinc", "", postinc, 0, O_NONE, R_V, 0}); v.push_back({"predec", "", predec, 0, O_NONE, R_V, 0}); v.push_back({"postdec", "", postdec, 0, O_NONE, R_V, 0});
        v.push_back({"add_t", "", add_t, A_A | A_DIFF, O_RMW, R_F, 0}); v.push_back({"sub_t", "", sub_t, A_A | A_DIFF, O_RMW, R_F, 0});
#ifndef H_FEWCONST
        C<1>::reg(v); C<-1>::reg(v); C<5>::reg(v);
#else
        C<1>::reg(v);
#endif
    }
};
template <class W, class T> struct Bits { // integral and enum
    typedef VT<T> V;
    F(fetch_and, T a = V::get(c.a); SETV, r = o.fetch_and(a, MO), PUTV)
    F(fetch_or, T a = V::get(c.a); SETV, r = o.fetch_or(a, MO), PUTV)
    F(fetch_xor, T a = V::get(c.a); SETV, r = o.fetch_xor(a, MO), PUTV)
    F(fetch_com, SETV, r = o.fetch_complement(MO), PUTV)
    F(band, T a = V::get(c.a); SETV, r = o.bitwise_and(a, MO), PUTV)
    F(bor, T a = V::get(c.a); SETV, r = o.bitwise_or(a, MO), PUTV)
    F(bxor, T a = V::get(c.a); SETV, r = o.bitwise_xor(a, MO), PUTV)
    F(bcom, SETV, r = o.bitwise_complement(MO), PUTV)
    F(o_and, T a = V::get(c.a), o.opaque_and(a, MO), )
    F(o_or, T a = V::get(c.a), o.opaque_or(a, MO), )
    F(o_xor, T a = V::get(c.a), o.opaque_xor(a, MO), )
    F(o_com, , o.opaque_complement(MO), )
    F(and_t, T a = V::get(c.a); bool f, f = o.and_and_test(a, MO), c.f = f)
    F(or_t, T a = V::get(c.a); bool f, f = o.or_and_test(a, MO), c.f = f)
    F(xor_t, T a = V::get(c.a); bool f, f = o.xor_and_test(a, MO), c.f = f)
    F(com_t, bool f, f = o.complement_and_test(MO), c.f = f)
    F(bts, unsigned a = c.a[0]; bool f, f = o.bit_test_and_set(a, MO), c.f = f)
    F(btr, unsigned a = c.a[0]; bool f, f = o.bit_test_and_reset(a, MO), c.f = f)
    F(btc, unsigned a = c.a[0]; bool f, f = o.bit_test_and_complement(a, MO), c.f = f)
    F(andeq, T a = V::get(c.a); SETV, r = (o &= a), PUTV)
    F(oreq, T a = V::get(c.a); SETV, r = (o |= a), PUTV)
    F(xoreq, T a = V::get(c.a); SETV, r = (o ^= a), PUTV)
    template <unsigned B> struct C {
        F(bts, bool f, f = o.bit_test_and_set(B, MO), c.f = f)
        F(btr, bool f, f = o.bit_test_and_reset(B, MO), c.f = f)
        F(btc, bool f, f = o.bit_test_and_complement(B, MO), c.f = f)
        static void reg(std::vector<OpDef>& v) { v.push_back({"bts", "k", bts, A_BIT, O_RMW, R_F, (long)B}); v.push_back({"btr", "k", btr, A_BIT, O_RMW, R_F, (long)B}); v.push_back({"btc", "k", btc, A_BIT, O_RMW, R_F, (long)B}); }
    };
    static void reg(std::vector<OpDef>& v) {
#define R1(nm, a, r) v.push_back({#nm, "", nm, a, O_RMW, r, 0});
        R1(fetch_and, A_A, R_V) R1(fetch_or, A_A, R_V) R1(fetch_xor, A_A, R_V) R1(fetch_com, 0, R_V) R1(band, A_A, R_V) R1(bor, A_A, R_V) R1(bxor, A_A, R_V) R1(bcom, 0, R_V)
        R1(o_and, A_A, R_NONE) R1(o_or, A_A, R_NONE) R1(o_xor, A_A, R_NONE) R1(o_com, 0, R_NONE) R1(and_t, A_A, R_F) R1(or_t, A_A, R_F) R1(xor_t, A_A, R_F) R1(com_t, 0, R_F)
        R1(bts, A_A | A_BIT, R_F) R1(btr, A_A | A_BIT, R_F) R1(btc, A_A | A_BIT, R_F)
        v.push_back({"andeq", "", andeq, A_A, O_NONE, R_V, 0}); v.push_back({"oreq", "", oreq, A_A, O_NONE, R_V, 0}); v.push_back({"xoreq", "", xoreq, A_A, O_NONE, R_V, 0});
        C<0>::reg(v); C<sizeof(T) * 8 - 1>::reg(v); 
#ifndef H_FEWCONST
        C<sizeof(T) * 4>::reg(v); C<(sizeof(T) > 1 ? 7u : 3u)>::reg(v);
#endif
    }
};
template <class W, class T> struct Neg {
    F(fetch_neg, SETV, r = o.fetch_negate(MO), PUTV)
    F(neg, SETV, r = o.negate(MO), PUTV)
    F(o_neg, , o.opaque_negate(MO), )
    static void reg(std::vector<OpDef>& v) { R1(fetch_neg, 0, R_V) R1(neg, 0, R_V) R1(o_neg, 0, R_NONE) }
};
template <class W, class T> struct NegT { F(neg_t, bool f, f = o.negate_and_test(MO), c.f = f) static void reg(std::vector<OpDef>& v) { R1(neg_t, 0, R_F) } };

template <class W, class T> void common(TypeDef& d, const char* id, const char* kind, unsigned es) {
    d.id = id; d.wrap = W::id; d.kind = kind; d.n = VT<T>::n; d.size = W::size(); d.align = W::align(); d.es = es; d.sgn = false; d.hw = nullptr;
    d.lock_free = W::alf; d.native_wait = W::anw;
    d.make = [](void* p, const unsigned char* v) { W::make(p, VT<T>::get(v)); };
    Gen<W, T>::base(d.ops);
#ifndef H_NOWAIT
    Gen<W, T>::waits(d.ops);
#endif
}
inline TypeDef& slot(char w, const char* id) { return types()[std::string(1, w) + id]; }
template <template <class> class WW, class T> void reg_int(const char* id) {
    typedef WW<T> W; TypeDef& d = slot(W::id, id); common<W, T>(d, id, "int", 0); d.sgn = std::is_signed<T>::value;
#ifndef H_ONLYWAIT
    Arith<W, T, T>::reg(d.ops); IncDec<W, T, T>::reg(d.ops); Bits<W, T>::reg(d.ops); Neg<W, T>::reg(d.ops); NegT<W, T>::reg(d.ops);
#endif
}
template <template <class> class WW, class T> void reg_enum(const char* id) { typedef WW<T> W; TypeDef& d = slot(W::id, id); common<W, T>(d, id, "int", 0);
#ifndef H_ONLYWAIT
    Bits<W, T>::reg(d.ops);
#endif
}
template <class T> void hwfn(const char* op, const unsigned char* pre, const unsigned char* a, unsigned char* out) {
    volatile T x = VT<T>::get(pre), y = a ? VT<T>::get(a) : T(0); volatile T r = x;
    switch (op[0]) { case '+': r = x + y; break; case '-': r = x - y; break; case 'n': r = -x; break; }
    T t = r; VT<T>::put(out, t);
}
template <template <class> class WW, class T> void reg_fp(const char* id) { typedef WW<T> W; TypeDef& d = slot(W::id, id); common<W, T>(d, id, "fp", 0); d.hw = hwfn<T>;
#ifndef H_ONLYWAIT
    Arith<W, T, T>::reg(d.ops); Neg<W, T>::reg(d.ops);
#endif
}
template <template <class> class WW, class E> void reg_ptr(const char* id) { typedef E* T; typedef WW<T> W; TypeDef& d = slot(W::id, id); common<W, T>(d, id, "ptr", sizeof(E));
#ifndef H_ONLYWAIT
    Arith<W, T, std::ptrdiff_t>::reg(d.ops); IncDec<W, T, std::ptrdiff_t>::reg(d.ops);
#endif
}
template <class T> void reg_const(const char* id, const char* kind, unsigned es = 0) {   // what a reference to const offers
    typedef WK<T> W; typedef Gen<W, T> G; TypeDef& d = slot('K', id); d.id = id; d.wrap = 'K'; d.kind = kind; d.n = VT<T>::n; d.size = W::size(); d.align = W::align(); d.es = es; d.sgn = std::is_signed<T>::value; d.hw = nullptr; d.lock_free = W::alf; d.native_wait = W::anw;
    d.make = [](void* p, const unsigned char* v) { W::make(p, VT<T>::get(v)); };
    auto& v = d.ops; v.push_back({"load", "", G::load, 0, O_LOAD, R_V, 0}); v.push_back({"load", "d", G::load_d, 0, O_NONE, R_V, 0}); v.push_back({"load", "conv", G::conv, 0, O_NONE, R_V, 0}); v.push_back({"load", "cp", G::load_cp, 0, O_LOAD, R_V, 0});
#ifndef H_NOWAIT
    G::waits(v);
#endif
}
template <template <class> class WW, class T> void reg_raw(const char* id, const char* kind = "raw") { typedef WW<T> W; TypeDef& d = slot(W::id, id); common<W, T>(d, id, kind, 0); }

// flags
template <class FT, char Id> struct Flag {
    struct W { static FT& get(void* p) { return *static_cast<FT*>(p); } };
    typedef bool T; typedef VT<bool> V;
    F(test, bool f, f = o.test(MO), c.f = f)
    F(tas, bool f, f = o.test_and_set(MO), c.f = f)
    F(clear, , o.clear(MO), )
    F(test_d, bool f, f = o.test(), c.f = f)
    F(tas_d, bool f, f = o.test_and_set(), c.f = f)
    F(clear_d, , o.clear(), )
    static void reg() {
        TypeDef& d = slot(Id, "flag"); d.id = "flag"; d.wrap = Id; d.kind = "flag"; d.n = 1; d.size = sizeof(FT); d.align = alignof(FT); d.es = 0; d.sgn = false; d.hw = nullptr; d.lock_free = FT::is_always_lock_free; d.native_wait = FT::always_has_native_wait_notify;
        d.make = [](void* p, const unsigned char* v) { new (p) FT(); if (v[0]) static_cast<FT*>(p)->test_and_set(); };
        std::vector<OpDef>& v = d.ops;
        v.push_back({"test", "", test, 0, O_LOAD, R_F, 0}); v.push_back({"tas", "", tas, 0, O_RMW, R_F, 0}); v.push_back({"clear", "", clear, 0, O_STORE, R_NONE, 0});
        v.push_back({"test", "d", test_d, 0, O_NONE, R_F, 0}); v.push_back({"tas", "d", tas_d, 0, O_NONE, R_F, 0}); v.push_back({"clear", "d", clear_d, 0, O_NONE, R_NONE, 0});
#ifndef H_NOWAIT
        Gen<W, bool>::waits(v);
#endif
        v.push_back({"init0", "", [](void* p, Call& c) { c.f = 2; new (p) FT(); }, 0, O_NONE, R_NONE, 0});
    }
};
} // namespace h
