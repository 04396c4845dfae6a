------------------------------ MODULE SeqCheck ------------------------------
(***************************************************************************)
(* Conformance of single operations: every record says that some build of    *)
(* the real library took an object from value x to value p, returning v and   *)
(* f, when operation op was applied with operands a, b (guard g: no byte      *)
(* outside the object changed). AtomicOps must allow each such step.          *)
(***************************************************************************)
EXTENDS AtomicOps, Json, TLC, IOUtils
R == ndJsonDeserialize(IOEnv.RECS)
N == Len(R)
VARIABLE i
\* arithmetic on floating point: h is what the language's operator yields
FpArith == AddOps \cup SubOps \cup NegOps
Allowed(r) == IF r.kd = "fp" /\ r.op \in FpArith THEN {FpApply(r.op, r.x, r.h)} ELSE Results(r.kd, r.es, r.op, r.x, r.a, r.b)
Ok(r) == LET A == Allowed(r) IN \A k \in DOMAIN r.rs : r.rs[k].g = 1 /\ Res(r.rs[k].p, r.rs[k].v, r.rs[k].f) \in A
Init == i = 1
Next == i <= N /\ i' = i + 1
Spec == Init /\ [][Next]_i
Check == i > N \/ Ok(R[i]) \/ PrintT(<<"BAD", i>>)
Report == PrintT(<<"CHECKED", TLCGet("distinct") - 1, N>>)
=============================================================================
