------------------------------ MODULE Reports ------------------------------
(***************************************************************************)
(* What the library says about itself, per build configuration. A record is  *)
(* one atomic type: grp the build, ty name, kind, w wrapper (A atomic, I      *)
(* ipc_atomic, R/J references), size of the value, align of the object, lfm   *)
(* and nwm the feature macros (0 never, 1 sometimes, 2 always, -1 there is    *)
(* none), lfs and nws the static constants, lfr and nwr the least and the     *)
(* greatest answer of the run-time query over several objects.                *)
(* That the reports are true of the operations is decided on histories with   *)
(* suspended threads (Trace).                                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, Json, TLC, IOUtils
R == ndJsonDeserialize(IOEnv.RECS)
N == Len(R)
VARIABLE i
\* one report: macro m, constant s, run-time answers q
Agree(m, s, q) ==
    /\ s \in {0, 1} /\ q[1] \in {0, 1} /\ q[2] \in {0, 1} /\ m \in {-1, 0, 1, 2}
    /\ s = 1 => q[1] = 1                     \* always means always
    /\ m = 2 <=> (m >= 0 /\ s = 1)           \* the macro and the constant say the same
    /\ m = 0 => q[2] = 0                     \* never means never
    /\ q[1] # q[2] => m \in {-1, 1} /\ s = 0
Alone(r) ==
    /\ Agree(r.lfm, r.lfs, r.lfr) /\ Agree(r.nwm, r.nws, r.nwr)
    /\ r.lfr[1] = r.lfs /\ r.lfr[2] = r.lfs                      \* is_lock_free() is consistent with is_always_lock_free
    /\ r.nws = 1 => r.lfs = 1 \/ r.w \in {"A", "R"}
    /\ r.kind = "lockfree" => r.lfs = 1
Same(m, n) == m = -1 \/ n = -1 \/ m = n
\* types of the same size and kind get the same answers (alignment matters to references only)
Together(r, s) ==
    /\ (r.grp = s.grp /\ r.kind = s.kind /\ r.size = s.size /\ r.w = s.w /\ r.align = s.align) =>
          Same(r.lfm, s.lfm) /\ Same(r.nwm, s.nwm) /\ r.lfs = s.lfs /\ r.nws = s.nws /\ r.lfr = s.lfr /\ r.nwr = s.nwr
    \* an atomic integer lock-free type waits natively when any integer type does
    /\ (r.grp = s.grp /\ r.kind = "lockfree" /\ s.kind = "int" /\ s.w = "A" /\ s.lfs = 1 /\ s.nws = 1 /\ s.size <= 8) => r.nws = 1
    \* the process-shared form of an object is lock-free exactly when the plain one is
    /\ (r.grp = s.grp /\ r.ty = s.ty /\ r.kind = s.kind /\ <<r.w, s.w>> \in {<<"A", "I">>, <<"R", "J">>}) => r.lfs = s.lfs /\ r.lfr = s.lfr
Ok(k) == Alone(R[k]) /\ \A j \in 1..N : Together(R[k], R[j])
Init == i = 1
Next == i <= N /\ i' = i + 1
Spec == Init /\ [][Next]_i
Check == i > N \/ Ok(i) \/ PrintT(<<"BAD", i>>)
Report == PrintT(<<"CHECKED", TLCGet("distinct") - 1, N>>)
=============================================================================
