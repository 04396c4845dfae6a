------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* What the library may keep allocated to support waiting. The state counts  *)
(* the waits in progress per object; a report of the memory held (event live: *)
(* n blocks, b bytes, u blocks ever allocated) must stay within a bound given  *)
(* by the largest number of objects waited on at the same time so far, and,    *)
(* once the process has run its exit handlers, by the waits still in progress. *)
(* The constants leave room for any reasonable bookkeeping, not for growth.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Json, TLC, TLCExt, IOUtils
H == ndJsonDeserialize(IOEnv.HIST)
NH == Len(H)
VARIABLES h, l, wt, peak, gone, reg
vars == <<h, l, wt, peak, gone, reg>>
Ev == H[h].ev
E == Ev[l]
Locks == H[h].locks
\* wt: thread -> object it waits on (0: none); gone: 0 running, 1 exit handlers started, 2 finished
\* reg: memory had been allocated, by waits that have returned or are asleep, before the exit handlers started (what is
\* used for the first time while or after they run cannot be released by them)
Waited(w) == Cardinality({w[t] : t \in DOMAIN w} \ {0})
Bound(x) == /\ E.n <= 4 * Locks * x + (IF x = 0 THEN 0 ELSE 4 * Locks)
            /\ E.b <= Locks * (1024 * x + (IF x = 0 THEN 0 ELSE 2048))
\* before exit nothing is given back and taken again and again: what was allocated in total is bounded as well
Reuse == E.u <= 8 * Locks * peak + (IF peak = 0 THEN 0 ELSE 8 * Locks)
Fits == IF gone = 2 /\ reg THEN Bound(Waited(wt)) ELSE Bound(peak) /\ (gone = 0 => Reuse)
Init == h \in 1..NH /\ l = 1 /\ wt = [t \in 1..H[h].nt |-> 0] /\ peak = 0 /\ gone = 0 /\ reg = FALSE
Adv == l' = l + 1 /\ UNCHANGED h
Max(x, y) == IF x > y THEN x ELSE y
Next ==
    /\ l <= Len(Ev) /\ Adv
    /\ \/ E.k = "c" /\ wt' = [wt EXCEPT ![E.t] = E.o] /\ peak' = Max(peak, Waited(wt')) /\ UNCHANGED <<gone, reg>>
       \/ E.k = "r" /\ wt' = [wt EXCEPT ![E.t] = 0] /\ UNCHANGED <<peak, gone, reg>>
       \/ E.k = "q" /\ UNCHANGED <<wt, peak, gone, reg>>
       \/ E.k = "exit" /\ gone' = 1 /\ reg' = (IF gone = 0 THEN E.reg = 1 ELSE reg) /\ UNCHANGED <<wt, peak>>
       \/ E.k = "exited" /\ gone' = 2 /\ UNCHANGED <<wt, peak, reg>>
       \/ E.k = "live" /\ Fits /\ UNCHANGED <<wt, peak, gone, reg>>
TSpec == Init /\ [][Next]_vars
ASSUME \A i \in 1..NH : TLCSet(i, 0)
Track == l > TLCGet(h) => TLCSet(h, l)
Rejected == {i \in 1..NH : TLCGet(i) <= Len(H[i].ev)}
Report == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in Rejected}>>)
=============================================================================
