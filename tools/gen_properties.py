#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run to regenerate).
import json, os
A='include/boost/atomic/'; D=A+'detail/'
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    anchors={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: anchors["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: anchors["observe_at"]=observe
    anchors["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":anchors})

p("P01","Operations on one lock-free atomic object are linearizable",
  "Every operation on an atomic object whose type is reported lock-free (atomic, atomic_ref, the ipc_ variants and atomic_flag; load, store, exchange, compare_exchange, and every arithmetic, bitwise, bit-test, negate/complement, opaque_ and *_and_test operation; every size from 1 to 16 bytes, integral, floating-point, pointer, enum, bool and class types) takes effect as one indivisible step between its invocation and its return. So under every interleaving of any number of threads no update is lost, no value is torn or invented, and each returned value (or flag) is the one that belongs to the operation's place in that single order.",
  ["schedules","inputs","programs","configurations"],"every instruction-level interleaving (x86-TSO, including store buffering) of any threads' operation programs on one object; every operation, operand value and type width; baseline x86-64 and cmpxchg16b/AVX builds",
  "atomicity.cpp runs one or two operations under a real scheduler for a bounded time with a statistical pass criterion; the api tests are single-threaded, so a read-modify-write that is not atomic, or a retry loop that reuses a stale value, is never exercised for most operations and widths.",
  [D+"core_arch_ops_gcc_x86.hpp",D+"extra_ops_gcc_x86.hpp",D+"extra_ops_generic.hpp",D+"core_ops_cas_based.hpp",D+"cas_based_exchange.hpp",D+"core_ops_gcc_atomic.hpp",D+"fp_ops_generic.hpp",D+"extra_fp_ops_generic.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"atomic_flag_impl.hpp"],
  [("core operations per size",D+"core_arch_ops_gcc_x86.hpp"),("CAS-loop extra operations",D+"extra_ops_gcc_x86.hpp"),("generic CAS loops",D+"extra_ops_generic.hpp, fp_ops_generic.hpp, extra_fp_ops_generic.hpp")],
  [("value","abstract value of the object"),("pending","per-thread operation invoked and not yet returned, and its result once it took effect")],
  ["call and return of each public operation, with arguments and results"])

p("P02","Operations on non-lock-free atomic objects are linearizable and exclusive",
  "Operations on atomic objects that are not lock-free (sizes that are not a native width, sizes above the largest native width, or every type when the fallback implementation is forced) are linearizable exactly like lock-free ones, whatever the object's size, alignment and address. Concurrent operations on different objects never corrupt each other, deadlock or starve one another, whether or not the implementation makes the objects share an internal lock, and whatever the configured number of internal locks.",
  ["schedules","inputs","programs","configurations"],"every instruction-level interleaving of operation programs on one or several objects of any size/alignment placed at any addresses, for every lock pool size, for the futex and pthread lock implementations",
  "The fallback tests are single-threaded apart from a wake-up fuzz loop over one 4-byte counter; no test makes two large objects collide on a lock or contends on one in a controlled way, and none varies the pool size.",
  ["src/lock_pool.cpp",D+"lock_pool.hpp",D+"core_operations_emulated.hpp",D+"extra_ops_emulated.hpp",D+"fp_ops_emulated.hpp",D+"extra_fp_ops_emulated.hpp",D+"futex.hpp"],
  [("scoped lock around every emulated operation",D+"lock_pool.hpp scoped_lock"),("futex/pthread mutex","src/lock_pool.cpp lock_state")],
  [("locks","which thread holds which internal lock"),("value","abstract value per object")],
  ["call and return of each public operation"])

p("P03","Integral operations compute exact modular results and report exact flags",
  "For every integral type of every width and signedness, each arithmetic, bitwise, bit-test and complement/negate operation stores exactly the two's-complement modular (wrap-around, never undefined) result of the named operator on the previous value and its operand, leaves every other bit unchanged, and returns exactly what its name promises: fetch_ forms the previous value, value-returning forms and compound operators the new value, *_and_test forms whether the new value is non-zero, bit_test_and_ forms the previous state of the addressed bit, opaque_ forms nothing. The result does not depend on the memory order, on whether operands are compile-time constants, on atomic versus atomic_ref versus ipc_ wrappers, on volatile qualification, or on the build configuration.",
  ["inputs","configurations"],"all previous values and operands (including extremes, sign boundaries, every bit index), all widths 8..128, signed and unsigned, constant and run-time operands, all wrappers, all configurations",
  "The api tests check a few fixed value pairs per operation with run-time operands; constant-operand fast paths, sign boundaries, most bit indices and the cross product with widths and wrappers are not covered.",
  [D+"core_arch_ops_gcc_x86.hpp",D+"extra_ops_gcc_x86.hpp",D+"extra_ops_generic.hpp",D+"extra_ops_emulated.hpp",D+"core_operations_emulated.hpp",D+"extending_cas_based_arithmetic.hpp",D+"integral_conversions.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp"],
  [("integral specialisation of the public classes",D+"atomic_impl.hpp, atomic_ref_impl.hpp"),("extra operations",D+"extra_ops_*.hpp")],
  [("value","byte vector of the object")],["return value of every operation and object bytes after it"])

p("P04","compare_exchange succeeds exactly on equal values and reports the value seen",
  "compare_exchange_strong stores the desired value and returns true if and only if the object's value representation equals that of expected at the operation's single point of effect, never failing spuriously; otherwise it leaves the object unchanged, returns false and sets expected to the value the object held at that point. compare_exchange_weak may additionally fail spuriously, but then also changes nothing in the object and leaves in expected a value the object held. On success expected is left unchanged, and (where the compiler can clear padding, as documented) padding bits never make a comparison of equal values fail forever: a retry with the reported value on an otherwise unmodified object succeeds.",
  ["inputs","schedules","configurations"],"every type category and size (including types with padding bytes and 80-bit long double), every (current, expected, desired) triple including ones that differ in a single bit, every memory order pair, every interleaving with concurrent modifications",
  "The tests use a couple of equal/unequal integers and one padded struct, single-threaded; a comparison that ignores some bytes, an expected value that is not refreshed on one path, or an update of expected on success is not distinguished.",
  [D+"core_arch_ops_gcc_x86.hpp",D+"core_operations_emulated.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"bitwise_cast.hpp",D+"bitwise_fp_cast.hpp"],
  [("compare_exchange overloads of each category",D+"atomic_impl.hpp"),("cmpxchg per width",D+"core_arch_ops_gcc_x86.hpp")],
  [("value","object value"),("expected","caller's expected before/after")],["return, expected and object bytes after each call"])

p("P05","Floating-point operations apply the operator to the value they replace",
  "For float, double and long double, fetch_/opaque_/value-returning add, sub and negate replace the object's value v with exactly what the language's own operator yields for v and the operand, and return the old or new value as the operation's name says, including for infinities, NaNs, signed zeros and subnormals. Stored values keep their exact value representation through store, load, exchange and compare_exchange (so -0.0 and +0.0, or two NaNs with different payloads, are different values to compare_exchange).",
  ["inputs","schedules","configurations"],"all operand values including special ones, all three types, all wrappers and configurations, concurrent updates",
  "The api tests use two or three ordinary values per type and compare with an epsilon; special values, padding of long double and concurrent updates are not covered.",
  [D+"fp_ops_generic.hpp",D+"extra_fp_ops_generic.hpp",D+"fp_ops_emulated.hpp",D+"extra_fp_ops_emulated.hpp",D+"bitwise_fp_cast.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp"],
  [("FP CAS loops",D+"fp_ops_generic.hpp, extra_fp_ops_generic.hpp"),("value representation casts",D+"bitwise_fp_cast.hpp")],
  [("value","value representation bytes")],["return value and value bytes after each operation"])

p("P06","Pointer, bool, enum and flag operations keep their type's semantics",
  "Pointer atomics add and subtract in units of the pointed-to object (void and function pointers are storable but have no arithmetic), fetch_ forms return the old pointer, value-returning forms the new one and *_and_test forms whether the new pointer is non-null; bool and enum atomics hold and return exactly the values stored. atomic_flag's test_and_set returns the previous state and sets it, clear resets it, test observes without modifying, and a default-constructed flag is clear.",
  ["inputs","configurations","programs"],"all element sizes (1 to large, non-power-of-two), positive and negative differences, null and non-null pointers, atomic/atomic_ref/ipc_ wrappers, all configurations, any operation sequence",
  "The api tests use one pointed-to type pair, one step value and two flag states.",
  [D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"atomic_flag_impl.hpp"],
  [("pointer specialisation",D+"atomic_impl.hpp base_atomic<T*, ...>"),("flag",D+"atomic_flag_impl.hpp")],
  [("value","pointer/bool/enum/flag value")],["return value and object state after each operation"])

p("P07","Any trivially copyable value round-trips and neighbouring memory is untouched",
  "An atomic of any trivially copyable type of any size (odd sizes, sizes between native widths, sizes above 16 bytes, types with padding, types without a default constructor) yields from load, exchange or conversion exactly the value last stored or initialised, and a value-initialised atomic holds the value-initialised T. No operation, on any kind of object, reads or writes a byte outside the object it is applied to; in particular an atomic_ref to a member or array element never alters adjacent elements.",
  ["inputs","configurations","schedules"],"all sizes 1..40 and larger, all values of the representation, objects at every permitted alignment, adjacent objects concurrently modified by others",
  "The tests use a few struct sizes with one or two values and do not watch neighbouring bytes, least of all concurrently.",
  [D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"storage_traits.hpp",D+"core_operations_emulated.hpp",D+"bitwise_cast.hpp",D+"string_ops.hpp",D+"core_arch_ops_gcc_x86.hpp"],
  [("storage type selection",D+"storage_traits.hpp"),("value casts",D+"bitwise_cast.hpp")],
  [("value","object representation"),("neighbours","bytes before and after the object")],["object and guard bytes around every operation"])

p("P08","A wait never misses a notification sent after the value changed",
  "If a thread is in an untimed wait(old) on an atomic object and another thread changes the object's value away from old and then calls notify_all, or calls notify_one while that is the only thread waiting on the object, the wait returns provided the value does not revert to old. This holds for every object type and size (lock-free or not, native wait support or not, atomic, atomic_ref, atomic_flag), wherever the store and the notify fall relative to the waiter's own steps, and however many threads wait or notify concurrently.",
  ["schedules","programs","configurations"],"every instruction-level interleaving (x86-TSO) of waiters, modifiers and notifiers; every type size class; both lock-pool backends",
  "The wait tests sleep long enough for the waiter to be parked before they notify, so the window between the waiter's check and its parking is never hit; wait_fuzz hits it by chance for one 4-byte type.",
  [D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp",D+"futex.hpp",D+"lock_pool.hpp","src/lock_pool.cpp"],
  [("native futex wait loop",D+"wait_ops_futex.hpp wait"),("condition variable per waited address","src/lock_pool.cpp wait_state::wait / notify_*")],
  [("waiters","threads that found the value equal to old and are entitled to a wake-up")],["call/return of wait, store, notify; points where nothing can run any more"])

p("P09","wait returns only a value different from the argument that the object held",
  "wait(old) returns only when it has itself read a value whose representation differs from old, and it returns that very value, which the object really held at some moment during the call; spurious wake-ups, notifications without a change of value, and changes that revert before the waiter looks never make it return. If the object already differs from old at the call, wait returns immediately without needing any notification.",
  ["schedules","programs","inputs"],"every interleaving of waits with stores, value flips back to the old value, spurious wake-ups and unrelated notifications; every type size including padded and large types",
  "The tests change the value once and then check the result; value flips, spurious wake-ups and torn values of large types during a wait are not produced.",
  [D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"atomic_flag_impl.hpp"],
  [("re-check loop after every wake-up",D+"wait_ops_*.hpp")],
  [("value history","values the object held during the call")],["return value of wait"])

p("P10","Notifications reach exactly the right waiters however many objects wait",
  "notify_one lets at least one thread blocked on that object re-examine the value, notify_all every such thread, for any number of threads waiting on any number of distinct objects at the same time, in any order of arrival and departure, and for any internal lock pool size. Waiting on or notifying one object never delays, blocks or consumes the notification of another object, even when both share internal bookkeeping.",
  ["schedules","programs","configurations","histories"],"any number of simultaneous waiters and waited objects (growth, removal from the middle, reuse), all arrival and wake orders, all lock pool sizes, generic/SSE2/SSE4.1 builds and instruction interleavings",
  "The tests wait on one object with two or three threads; no test has two waited objects share a lock-pool entry, let alone the dozen that take the vectorised search, or removes waiters from the middle of the list.",
  ["src/lock_pool.cpp","src/find_address_sse2.cpp","src/find_address_sse41.cpp","src/find_address.hpp","src/bit_operation_tools.hpp","src/x86_vector_tools.hpp",D+"lock_pool.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp"],
  [("list of waited addresses per lock","src/lock_pool.cpp wait_state_list"),("address search","src/find_address_*.cpp")],
  [("association","which waiters belong to which object")],["call/return of wait and notify; quiescent points"])

p("P11","Timed waits time out only after the deadline and never sleep past it",
  "wait_for and wait_until report a timeout only if the deadline has been reached on the given clock (relative timeouts count from the call on a steady clock) and the value they return equals the one waited on; otherwise they report no timeout and return a different value the object held. With no further notification a timed wait returns once its deadline has passed, whatever the clock (steady, system - including, where the system can wait on that clock, when it is stepped while waiting -, or user-defined with or without a POSIX clock mapping), duration units, and however large the representable deadline; past, zero and negative timeouts do not block.",
  ["inputs","schedules","fault_sequences","configurations"],"all clocks, durations and deadline positions (including sub-second carries, second boundaries, distant deadlines), clock steps, interruptions, and interleavings of expiry with stores and notifications, for every type size class",
  "The tests use 100-500 ms timeouts with a 20-odd ms tolerance on idle objects and never step a clock, interrupt a sleep or race expiry with a notification.",
  [D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp",D+"chrono.hpp",D+"has_posix_clock_traits.hpp",A+"wait_result.hpp","src/lock_pool.cpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"atomic_flag_impl.hpp"],
  [("deadline arithmetic",D+"wait_ops_*.hpp wait_until*/wait_for"),("timed condition wait","src/lock_pool.cpp wait_state::wait_until/wait_for")],
  [("now","time on each clock"),("deadline","per pending timed wait")],["call/return of timed waits with the clock; quiescent points and time advances"])

p("P12","A timed wait never misses a notification sent before its deadline",
  "If the value is changed away from the one waited on and the waiting thread is then notified (notify_all, or notify_one as the only waiter) before the deadline, a timed wait returns the new value without a timeout and without sleeping on towards its deadline. This holds wherever the store and notify fall relative to the waiter's steps, for every type size and clock kind, and a waiter that times out concurrently never makes a notification that other waiters needed disappear.",
  ["schedules","programs","configurations"],"every interleaving of timed waiters, modifiers, notifiers and expiry; all type size classes; steady, system and user-defined clocks",
  "The tests notify a waiter that has been parked for a long time; the window between the waiter's check and its parking and the race between expiry and wake-up are not reached.",
  [D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp","src/lock_pool.cpp"],
  [("timed wait loops",D+"wait_ops_*.hpp wait_until*/wait_for"),("timed condition wait","src/lock_pool.cpp")],
  [("waiters","pending timed waits and whether they were notified")],["call/return of timed waits, notify; quiescent points"])

p("P13","Waiting and locking survive signals and memory exhaustion",
  "Interrupted or spuriously returning system calls, and failures to allocate memory for waiting, never change the outcome of any operation: waits still return only on a changed value (or, when timed, at the deadline), no notification is lost, mutual exclusion of non-lock-free operations is kept, and every operation still completes. No such fault makes an operation throw, terminate, deadlock or leave later operations on the same or other objects broken.",
  ["fault_sequences","schedules"],"every placement of EINTR / spurious wake-ups on any blocking system call and of allocation failures on any allocation, in any interleaving of waiters, modifiers and notifiers",
  "The tests inject no faults.",
  ["src/lock_pool.cpp",D+"futex.hpp",D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"wait_ops_emulated.hpp",D+"lock_pool.hpp"],
  [("EINTR/EAGAIN handling","src/lock_pool.cpp wait_state::wait*"),("null wait state degradation","src/lock_pool.cpp allocate_wait_state/wait/wait_until/wait_for")],
  [("faults","which calls fail")],["call/return events under injected faults; quiescent points"])

p("P14","IPC atomics work through any mapping of the shared memory",
  "ipc_atomic, ipc_atomic_ref and ipc_atomic_flag operations act on the shared memory itself: processes, or mappings within one process, that see the object at different addresses observe a single linearizable object, and a change plus notification through one mapping ends every matching wait, timed or not, made through another. No operation on them uses state private to one process or address.",
  ["schedules","programs","configurations"],"every interleaving of operations, waits and notifications issued through two or more mappings at different addresses and in different processes; all lock-free sizes",
  "The ipc tests use one address in one process, so a process-private futex, a per-process lock or an address-keyed table passes them.",
  [A+"ipc_atomic.hpp",A+"ipc_atomic_ref.hpp",A+"ipc_atomic_flag.hpp",D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp",D+"atomic_flag_impl.hpp"],
  [("non-private futex",D+"wait_ops_futex.hpp futex_private_flag"),("polling wait",D+"wait_ops_generic.hpp wait_operations_generic<Base,true>")],
  [("value","shared object value"),("waiters","waiters keyed by memory, not address")],["call/return through each mapping; quiescent points"])

p("P15","Memory orders given to operations are honoured",
  "Programs using atomic operations (loads, stores, every read-modify-write form, compare_exchange with separate orders, flag operations, wait) only show outcomes the C++ memory model allows for the orders given: release/acquire pairs publish prior writes, relaxed accesses stay coherent per object, and seq_cst operations on all objects fall into one total order consistent with each thread's program order. This holds for every object size and kind, lock-free or not, after compilation with optimisation.",
  ["schedules","programs","configurations"],"all litmus-shaped programs of a few threads over a few objects and plain variables, every operation kind in each role, all x86-TSO executions of the optimised code",
  "ordering.cpp looks for one store-buffering pattern statistically on one type; compiler-level reordering and the other operation kinds and sizes are not observed.",
  [D+"core_arch_ops_gcc_x86.hpp",D+"extra_ops_gcc_x86.hpp",D+"core_operations_emulated.hpp",D+"memory_order_utils.hpp",D+"wait_ops_futex.hpp",D+"wait_ops_generic.hpp",D+"atomic_impl.hpp","src/lock_pool.cpp"],
  [("fence_before/fence_after and xchg stores",D+"core_arch_ops_gcc_x86.hpp"),("failure order deduction",D+"memory_order_utils.hpp")],
  [("memory","message history and thread views of the C++ memory model")],["final values read by each thread of a litmus program"])

p("P16","Fences order surrounding accesses as the memory model requires",
  "atomic_thread_fence with acquire, release, acq_rel or seq_cst order combined with relaxed (or weaker) atomic accesses only allows the outcomes the C++ memory model allows; in particular seq_cst fences between a store and a load in each of several threads never let all of them miss the others' stores. atomic_signal_fence prevents the compiler from moving the accesses its order constrains across it within a thread, and neither fence changes any value.",
  ["schedules","programs","configurations"],"all litmus-shaped programs using fences, all x86-TSO executions of the optimised code; fallback and native fence implementations",
  "fences are only exercised statistically with one pattern; signal fences and compiler-level effects are not observed.",
  [A+"fences.hpp",D+"fence_operations.hpp",D+"fence_arch_ops_gcc_x86.hpp",D+"fence_ops_gcc_atomic.hpp",D+"fence_operations_emulated.hpp","src/lock_pool.cpp"],
  [("thread fence",D+"fence_arch_ops_gcc_x86.hpp"),("emulated fences",D+"fence_operations_emulated.hpp, src/lock_pool.cpp thread_fence/signal_fence")],
  [("memory","message history and thread views")],["final values of litmus programs"])

p("P17","Lock-freedom and native-wait reports are truthful and consistent",
  "If is_lock_free, is_always_lock_free or a *_LOCK_FREE macro says operations on an object are lock-free, then an operation by one thread completes in a bounded number of its own steps no matter where any other thread has been suspended forever, and likewise waiting is woken through the native mechanism, independent of suspended threads, when has_native_wait_notify or its macro says so. The macro, the static constant and the run-time query agree with one another and with every other type of the same size and kind, and all operations on one object use one consistent mechanism, so mixing them keeps atomicity.",
  ["schedules","configurations","inputs"],"every point at which another thread may be suspended inside any operation; every type, size and wrapper; every build configuration",
  "lockfree.cpp only compares macros with is_lock_free; nothing checks that a type reported lock-free really avoids locks.",
  [A+"capabilities.hpp",D+"capabilities.hpp",D+"caps_arch_gcc_x86.hpp",D+"caps_gcc_atomic.hpp",D+"wait_capabilities.hpp",D+"wait_caps_futex.hpp",D+"core_operations.hpp",D+"atomic_impl.hpp",D+"atomic_ref_impl.hpp"],
  [("capability macros",D+"capabilities.hpp, wait_capabilities.hpp"),("backend selection",D+"core_operations.hpp, core_arch_operations.hpp")],
  [("suspended","threads stopped forever inside an operation")],["completion of the other threads' operations; reported properties"])

p("P18","Waiting bookkeeping is reclaimed, bounded and safe through process exit",
  "Memory used to support waiting is bounded by the peak number of simultaneously waited objects, is reused rather than accumulated over repeated waits, and is released by normal process exit, with no access to freed or foreign memory at any point. Waits, notifications and non-lock-free operations performed during or after static destruction and exit handlers still work, even while other threads are still waiting at that time.",
  ["histories","schedules","programs"],"any history of waits and notifications over many objects before, during and after exit-time cleanup, any interleaving with it",
  "No test measures memory or waits from an exit handler or static destructor.",
  ["src/lock_pool.cpp"],
  [("wait state pooling and cleanup","src/lock_pool.cpp wait_state_list, cleanup_lock_pool")],
  [("allocated","live allocations of the bookkeeping"),("cleanup","whether exit-time cleanup has run")],["allocation/free events, accesses to freed blocks, call/return of waits"])

p("P19","All references to one object, and all operations on it, act as one atomic",
  "Any number of atomic_ref objects bound to the same object, created, copied and destroyed at any time in any threads, behave as one atomic object in every operation including wait and notify; creating, copying or destroying a reference never alters the object (except that padding bits of a type that has some may be cleared on creation, as documented), and required_alignment is sufficient for every operation on any object so aligned. For atomic_ref as for atomic, after any sequence of operations a load equals the value the abstract object holds.",
  ["programs","schedules","inputs"],"any number and lifetime of references, any operation mix through different references and threads, all sizes and permitted alignments, lock-free or not",
  "The ref tests use one reference at a time on one over-aligned object.",
  [A+"atomic_ref.hpp",D+"atomic_ref_impl.hpp",D+"core_operations_emulated.hpp",D+"lock_pool.hpp",D+"storage_traits.hpp"],
  [("atomic_ref classes",D+"atomic_ref_impl.hpp"),("address hashing by storage alignment",D+"lock_pool.hpp hash_ptr")],
  [("value","object value shared by all references")],["call/return through each reference"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
