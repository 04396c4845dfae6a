// Prints what the library reports about lock-freedom and native waiting, one record per type and wrapper (see spec/Reports.tla).
#include <boost/atomic.hpp>
#include <boost/atomic/ipc_atomic.hpp>
#include <boost/atomic/ipc_atomic_ref.hpp>
#include <boost/atomic/ipc_atomic_flag.hpp>
#include <cstdio>
#include <cstdint>
#include <string>
template <int N> struct Blk { unsigned char b[N]; };
template <int N, int A> struct alignas(A) ABlk { unsigned char b[N]; };
enum class E8 : signed char { a }; enum class E16 : short { a }; enum class E32 : int { a }; enum class E64 : long { a };
static void rec(const char* name, const char* kind, char wrap, unsigned size, unsigned align, int lfm, int nwm, int lfs, int nws, int lfr0, int lfr1, int nwr0, int nwr1) {
    printf("{\"ty\":\"%s\",\"kind\":\"%s\",\"w\":\"%c\",\"size\":%u,\"align\":%u,\"lfm\":%d,\"nwm\":%d,\"lfs\":%d,\"nws\":%d,\"lfr\":[%d,%d],\"nwr\":[%d,%d]}\n", name, kind, wrap, size, align, lfm, nwm, lfs, nws, lfr0, lfr1, nwr0, nwr1);
}
template <class A> static void one(const char* name, const char* kind, char wrap, unsigned size, int lfm, int nwm) {
    // several objects at different addresses, looked at through a const reference and through the object
    static A o[3]; bool l0 = true, l1 = false, n0 = true, n1 = false;
    for (int i = 0; i < 3; ++i) { const A& c = o[i]; bool l = o[i].is_lock_free(), n = c.has_native_wait_notify(); l0 &= l && c.is_lock_free(); l1 |= l || c.is_lock_free(); n0 &= n && o[i].has_native_wait_notify(); n1 |= n; }
    rec(name, kind, wrap, size, (unsigned)alignof(A), lfm, nwm, A::is_always_lock_free, A::always_has_native_wait_notify, l0, l1, n0, n1);
}
template <class R, class T> static void ref(const char* name, const char* kind, char wrap, unsigned size, int lfm, int nwm) {
    alignas(64) static unsigned char buf[512]; bool l0 = true, l1 = false, n0 = true, n1 = false;
    for (unsigned i = 0; i < 3; ++i) { T* p = new (buf + i * ((sizeof(T) + R::required_alignment - 1) / R::required_alignment) * R::required_alignment) T(); R r(*p); bool l = r.is_lock_free(), n = r.has_native_wait_notify(); l0 &= l; l1 |= l; n0 &= n; n1 |= n; }
    rec(name, kind, wrap, size, (unsigned)R::required_alignment, lfm, nwm, R::is_always_lock_free, R::always_has_native_wait_notify, l0, l1, n0, n1);
}
template <class T> static void all(const char* name, const char* kind, int lfm, int nwm, int inwm) {
    one<boost::atomic<T> >(name, kind, 'A', sizeof(T), lfm, nwm); one<boost::ipc_atomic<T> >(name, kind, 'I', sizeof(T), lfm, inwm);
    ref<boost::atomic_ref<T>, T>(name, kind, 'R', sizeof(T), -1, -1); ref<boost::ipc_atomic_ref<T>, T>(name, kind, 'J', sizeof(T), -1, -1);
}
#define M(T, X, kind) all<T>(#X, kind, BOOST_ATOMIC_##X##_LOCK_FREE, BOOST_ATOMIC_HAS_NATIVE_##X##_WAIT_NOTIFY, BOOST_ATOMIC_HAS_NATIVE_##X##_IPC_WAIT_NOTIFY);
#define N(T, kind) all<T>(#T, kind, -1, -1, -1);
typedef int (*fptr)(); struct Und;
int main() {
    M(bool, BOOL, "bool") M(char, CHAR, "int") M(char16_t, CHAR16_T, "int") M(char32_t, CHAR32_T, "int") M(wchar_t, WCHAR_T, "int") M(short, SHORT, "int") M(int, INT, "int") M(long, LONG, "int") M(long long, LLONG, "int")
#ifdef __cpp_char8_t
    M(char8_t, CHAR8_T, "int")
#endif
    M(unsigned char, CHAR, "int") M(signed char, CHAR, "int") M(unsigned short, SHORT, "int") M(unsigned, INT, "int") M(unsigned long, LONG, "int") M(unsigned long long, LLONG, "int")
    M(void*, POINTER, "ptr") M(int*, POINTER, "ptr") M(int*, ADDRESS, "ptr") M(Und*, POINTER, "ptr") M(fptr, POINTER, "ptr")
    M(std::int8_t, INT8, "int") M(std::int16_t, INT16, "int") M(std::int32_t, INT32, "int") M(std::int64_t, INT64, "int") M(std::uint8_t, INT8, "int") M(std::uint16_t, INT16, "int") M(std::uint32_t, INT32, "int") M(std::uint64_t, INT64, "int")
    M(boost::int128_type, INT128, "int") M(boost::uint128_type, INT128, "int")
    M(float, FLOAT, "fp") M(double, DOUBLE, "fp") M(long double, LONG_DOUBLE, "fp")
    N(E8, "enum") N(E16, "enum") N(E32, "enum") N(E64, "enum")
    N(Blk<1>, "raw") N(Blk<2>, "raw") N(Blk<3>, "raw") N(Blk<4>, "raw") N(Blk<5>, "raw") N(Blk<6>, "raw") N(Blk<7>, "raw") N(Blk<8>, "raw") N(Blk<9>, "raw") N(Blk<12>, "raw") N(Blk<15>, "raw") N(Blk<16>, "raw") N(Blk<17>, "raw") N(Blk<32>, "raw") N(Blk<33>, "raw") N(Blk<64>, "raw")
    typedef ABlk<2, 2> A2; typedef ABlk<4, 4> A4; typedef ABlk<8, 8> A8; typedef ABlk<16, 16> A16; N(A2, "raw") N(A4, "raw") N(A8, "raw") N(A16, "raw")
    one<boost::atomic_flag>("FLAG", "flag", 'A', 4, BOOST_ATOMIC_FLAG_LOCK_FREE, BOOST_ATOMIC_HAS_NATIVE_FLAG_WAIT_NOTIFY); one<boost::ipc_atomic_flag>("FLAG", "flag", 'I', 4, BOOST_ATOMIC_FLAG_LOCK_FREE, BOOST_ATOMIC_HAS_NATIVE_FLAG_IPC_WAIT_NOTIFY);
#if BOOST_ATOMIC_INT32_LOCK_FREE == 2 || BOOST_ATOMIC_INT64_LOCK_FREE == 2 || BOOST_ATOMIC_INT16_LOCK_FREE == 2 || BOOST_ATOMIC_INT8_LOCK_FREE == 2
    one<boost::atomic_unsigned_lock_free>("unsigned_lock_free", "lockfree", 'A', sizeof(boost::atomic_unsigned_lock_free), -1, -1); one<boost::atomic_signed_lock_free>("signed_lock_free", "lockfree", 'A', sizeof(boost::atomic_signed_lock_free), -1, -1);
#endif
}
