------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks histories recorded from the real library against BoostAtomic.      *)
(* Each history in the file is one initial state; a history is accepted when  *)
(* some behaviour of BoostAtomic explains all its events. Internal steps are  *)
(* not logged, TLC searches for them.                                         *)
(*                                                                            *)
(* TraceRef does this literally. Here the search is reduced, with the same     *)
(* verdicts (cross-checked against TraceRef by the checks' self test):         *)
(*  - a history is split by object before it gets here (linearizability and    *)
(*    the waiting rules are local to an object);                               *)
(*  - an effect is only guessed when the thread returning next needs it;       *)
(*  - a waiter is followed deterministically: obs is the set of values it      *)
(*    could have left with so far, to whether it could have timed out, must    *)
(*    whether it owes another look (it was notified, or never looked);         *)
(*  - the thread a notify_one wakes is chosen among representatives: for equal  *)
(*    awaited values the one that returns first in this history (field x).     *)
(***************************************************************************)
EXTENDS BoostAtomic, Json, TLC, TLCExt, IOUtils

H == ndJsonDeserialize(IOEnv.HIST)
NH == Len(H)
VARIABLES h, l
tvars == <<h, l>>

MaxT == IF "MAXT" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXT) ELSE 8
MaxO == IF "MAXO" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXO) ELSE 8
TraceThreads == 1..MaxT
TraceObjects == 1..MaxO
Ev == H[h].ev
E == Ev[l]
Kd(o) == H[h].obj[o].kd
Es(o) == H[h].obj[o].es
T0 == <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>

TInit ==
    /\ h \in 1..NH /\ l = 1
    /\ mem = [o \in 1..MaxO |-> IF o <= Len(H[h].obj) THEN H[h].obj[o].iv ELSE <<>>]
    /\ th = [t \in 1..MaxT |-> Idle]
    /\ now = T0 /\ dead = {}

Waiting(c) == c.st = "wait"
\* what a waiter may conclude from value v of its object being visible now
See(c, v) == IF v # c.a THEN [c EXCEPT !.obs = @ \cup {v}] ELSE [c EXCEPT !.must = FALSE, !.to = @ \/ c.rch]
SeeAll(ths, m) == [u \in Threads |-> IF Waiting(ths[u]) THEN See(ths[u], m[ths[u].o]) ELSE ths[u]]

WaitCall(t, e) ==
    /\ th[t].st = "idle" /\ t \notin dead
    /\ LET c == [st |-> "wait", o |-> e.o, op |-> e.op, a |-> e.a, obs |-> {}, must |-> TRUE, to |-> FALSE, x |-> e.x, xf |-> e.xf,
                 d |-> IF e.op = "twait" THEN e.d ELSE <<0, 0, 0>>, ck |-> IF e.op = "twait" THEN e.ck ELSE 1,
                 rch |-> e.op = "twait" /\ Later(now[e.ck], e.d)]
       IN  th' = [th EXCEPT ![t] = See(c, mem[e.o])]
    /\ UNCHANGED <<mem, now, dead>>
CanLeave(c, v, f) == IF f = 1 THEN c.op = "twait" /\ c.to /\ v = c.a ELSE f = WaitFlag(c) /\ v \in c.obs
WaitReturn(t, v, f) == CanLeave(th[t], v, f) /\ th' = [th EXCEPT ![t] = Idle] /\ UNCHANGED <<mem, now, dead>>
WTick(n) ==
    /\ now' = n
    /\ th' = SeeAll([t \in Threads |-> IF Waiting(th[t]) /\ th[t].op = "twait" THEN [th[t] EXCEPT !.rch = @ \/ Later(n[th[t].ck], th[t].d)] ELSE th[t]], mem)
    /\ UNCHANGED <<mem, dead>>
WLin(t) ==
    /\ th[t].st = "inv" /\ th[t].op \notin NotifyOps
    /\ LET o == th[t].o IN \E r \in Results(Kd(o), Es(o), th[t].op, mem[o], th[t].a, th[t].b) :
         /\ mem' = [mem EXCEPT ![o] = r.p]
         /\ th' = SeeAll([th EXCEPT ![t] = Done(@, r.v, r.f)], mem')
    /\ UNCHANGED <<now, dead>>
\* threads asleep on o; one that has timed out already and only has to say so may count as gone
Asleep(o) == {u \in Threads : Waiting(th[u]) /\ th[u].o = o /\ ~th[u].must}
Gone(u) == th[u].to /\ th[u].xf = 1
WNotifyOne(t) ==
    /\ th[t].st = "inv" /\ th[t].op = "notify_one"
    /\ LET o == th[t].o  B == Asleep(o) IN
       \/ /\ B = {} \/ (\E u \in B : mem[o] = th[u].a \/ u \in dead) \/ \A u \in B : Gone(u)
          /\ th' = [th EXCEPT ![t] = Done(@, <<>>, 2)]
       \/ /\ B # {} /\ \A u \in B : mem[o] # th[u].a /\ u \notin dead
          /\ \E k \in {<<th[u].a, Gone(u)>> : u \in B} :
               LET C == {u \in B : <<th[u].a, Gone(u)>> = k}
                   w == CHOOSE u \in C : \A z \in C : th[u].x <= th[z].x
               IN  th' = [th EXCEPT ![t] = Done(@, <<>>, 2), ![w].must = TRUE, ![w].to = FALSE]
    /\ UNCHANGED <<mem, now, dead>>
WNotifyAll(t) ==
    /\ th[t].st = "inv" /\ th[t].op = "notify_all"
    /\ LET o == th[t].o  B == Asleep(o) IN
       th' = [u \in Threads |-> IF u = t THEN Done(th[t], <<>>, 2)
                                ELSE IF u \in B /\ mem[o] # th[u].a /\ ~Gone(u) THEN [th[u] EXCEPT !.must = TRUE, !.to = FALSE] ELSE th[u]]
    /\ UNCHANGED <<mem, now, dead>>
\* BoostAtomic!Quiet for waiters followed this way
WQuiet == \A t \in Threads \ dead : th[t].st = "idle" \/ (Waiting(th[t]) /\ ~th[t].must /\ (th[t].op = "twait" => ~th[t].rch))

Is(k) == l <= Len(Ev) /\ E.k = k
Adv == l' = l + 1 /\ UNCHANGED h
Ready(t) == IF Waiting(th[t]) THEN CanLeave(th[t], E.v, E.f) ELSE th[t].st = "done"
Guess == \E t \in 1..H[h].nt : WLin(t)
GuessNotify == \E t \in 1..H[h].nt : WNotifyOne(t) \/ WNotifyAll(t)
Internal ==
    /\ UNCHANGED tvars
    /\ \/ Is("r") /\ ~Ready(E.t) /\ (Guess \/ GuessNotify)
       \/ Is("r") /\ Ready(E.t) /\ Waiting(th[E.t]) /\ GuessNotify
       \/ Is("q") /\ \E t \in dead : WLin(t) \/ WNotifyOne(t) \/ WNotifyAll(t)

TNext ==
    \/ Is("c") /\ Adv /\ IF E.op \in WaitOps THEN WaitCall(E.t, E) ELSE Call(E.t, E)
    \/ Is("r") /\ Adv /\ Ready(E.t) /\ IF Waiting(th[E.t]) THEN WaitReturn(E.t, E.v, E.f) ELSE Return(E.t, E.v, E.f)
    \/ Is("t") /\ Adv /\ WTick(E.n)
    \/ Is("z") /\ Adv /\ Suspend(E.t)
    \/ Is("nap") /\ Adv /\ Nap(E.t, E.lf, E.nw)
    \* whoever is still waiting here is asleep: it can no longer leave with what it could have seen before
    \/ Is("q") /\ Adv /\ WQuiet /\ th' = [t \in Threads |-> IF Waiting(th[t]) /\ t \notin dead THEN See([th[t] EXCEPT !.obs = {}], mem[th[t].o]) ELSE th[t]] /\ UNCHANGED <<mem, now, dead>>
    \/ Internal
TSpec == TInit /\ [][TNext]_<<vars, tvars>>

\* register i: how far into history i some behaviour got; an accepted history is not explored further
ASSUME \A i \in 1..NH : TLCSet(i, 0)
Track == /\ (l > TLCGet(h) => TLCSet(h, l))
         /\ TLCGet(h) <= Len(Ev)
Rejected == {i \in 1..NH : TLCGet(i) <= Len(H[i].ev)}
Report == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in Rejected}>>)
=============================================================================
