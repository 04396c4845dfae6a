#!/usr/bin/env python3
"""Writes MANIFEST.json (run from /verif)."""
import json
T="TLA+ specification checked with TLC; histories recorded from the real code under a deterministic instruction-level scheduler are decided against the specification"
L="Litmus programs run on the real code under an operational TSO machine (compiled instructions) and a weak memory machine (instrumented code); every outcome is decided against an axiomatic C++20 memory model written in TLA+ and evaluated by TLC"
M="TLA+ specifications checked with TLC: behaviours of the implementation-shaped LockPool specification are replayed on the real code slice by slice, and these and other histories recorded from the real code under a deterministic instruction-level scheduler are decided against the abstract specification"
R="TLA+ specification checked with TLC; outcomes of real calls are decided as records against the specification"
NOTE={
"P01":(T,"Bounded: 1-3 threads, 1-3 calls each; all single preemptions at every memory access (a sample of 2-3 preemptions, random and priority schedules); every operation, size and type; x86-64 gcc/clang, native, cmpxchg16b and inline-assembler backends."),
"P02":(T,"As P01 for non-lock-free objects (odd sizes, >16 bytes, forced fallback), futex and pthread locks, lock pool sizes 1, 2 and 256, several objects sharing a lock."),
"P03":(R,"Sampled operand values including all boundary patterns; every integral type, operation, form, memory order and wrapper, six build configurations; the specification computes the result independently."),
"P04":(R,"As P03 for compare_exchange with equal, unequal, padding-different expected values; spurious failures allowed only for weak."),
"P05":(R,"As P03 for float, double, long double incl. NaN, infinities, signed zeros, subnormals; the operator itself is evaluated by the compiler on volatile operands, everything else by the specification."),
"P06":(R,"As P03 for pointers, bool, enums and atomic_flag."),
"P07":(R,"Round trips of values of every size 1-64 with guard bytes around the object, and every operation under the instruction-level engine with byte-granular access checks."),
"P08":(M,"Bounded: 2-4 threads, notify/wait shapes; all single preemptions in a sample of base orders plus random and priority schedules; every size and kind, futex, pthread, fallback, polling backends."),
"P09":(T,"As P08 with ABA, no-change, spurious wake-up and early notification shapes."),
"P10":(M,"Up to 40 waiters on up to 35 objects sharing a lock pool of size 1, 2 or 256; random and priority schedules."),
"P11":(T,"Virtual time; eleven kinds of deadline (clocks, units), past, near and far deadlines, stepped system clock, interrupted system calls, jumps of time during the call."),
"P12":(M,"As P08/P11: timed waiters with notifications before the deadline and concurrent timeouts."),
"P13":(M,"Signals: any wait system call may return early; allocation failures: first, n-th, or all from some point; futex, pthread and polling paths; bounded threads and schedules as P08-P12."),"P14":(T,"Two mappings of one memory at different addresses and two virtual processes with private copies of all static data; futexes are keyed as the kernel does; ipc_atomic, ipc_atomic_ref, ipc_atomic_flag of all lock-free sizes; shapes of P01/P02/P08/P11."),"P15":(L,"Generated litmus programs of 2-4 threads and up to about 4 calls each covering every (operation, role, memory order) per build configuration; schedules and read choices sampled; x86-64 store buffering for compiled code, wider reorderings (stale reads, no load buffering) for configurations visible to instrumentation."),"P16":(L,"As P15 for atomic_thread_fence and atomic_signal_fence with every order, in every build configuration including lock-based and inline assembler ones; signal fences checked against handlers run at any point of the interrupted thread."),"P17":(T,"Reports of is_lock_free, is_always_lock_free, the macros and has_native_wait_notify are compared, for every kind of type in eleven build configurations, with what executions do when other threads are frozen at each of their steps; bounded threads and freeze points."),"P18":(T,"Allocations of the library are counted and every access to freed or foreign memory is reported; churn over up to 20 objects and 24 waiters with lock pools of size 1 and 2; exit handlers run at any point in any thread, a few threads."),"P19":(T,"Several references (and the object) with different lifetimes per call, minimal alignment, in 1-3 threads and in long single-threaded sequences; all kinds and sizes, volatile and const references, copies of references."),
}
import os
done=json.load(open("tools/claimed.json"))
props=[json.loads(l)["id"] for l in open("properties.jsonl")]
m={"version":1,"setup_cmd":"python3 setup.py","checks":[{"property":p,"quick_cmd":"python3 check.py --property %s --tier quick"%p,"thorough_cmd":"python3 check.py --property %s --tier thorough"%p,"technique":NOTE[p][0],"level":"model_checking","level_note":NOTE[p][1]} for p in done],
"not_applicable":[{"property":p,"reason":"the check for this property is still being built"} for p in props if p not in done],
"notes":"TLA+ with TLC. See DESIGN.md. No hooks in /repo are needed: the code under test is compiled unmodified and observed by single-stepping."}
json.dump(m,open("MANIFEST.json","w"),indent=1)
