------------------------------- MODULE TraceRef -------------------------------
(***************************************************************************)
(* Checks histories recorded from the real library against BoostAtomic.      *)
(* Each history in the file is one initial state; a history is accepted when  *)
(* some behaviour of BoostAtomic explains all its events. The internal steps  *)
(* (Lin, Notify, Look, Wake, Timeout) are not logged: TLC searches for them.  *)
(***************************************************************************)
EXTENDS BoostAtomic, Json, TLC, TLCExt, IOUtils

H == ndJsonDeserialize(IOEnv.HIST)
NH == Len(H)
VARIABLES h, l
tvars == <<h, l>>

MaxT == IF "MAXT" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXT) ELSE 8
MaxO == IF "MAXO" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXO) ELSE 8
TraceThreads == 1..MaxT
TraceObjects == 1..MaxO
Ev == H[h].ev
E == Ev[l]
Kd(o) == H[h].obj[o].kd
Es(o) == H[h].obj[o].es
T0 == <<<<0, 0, 0>>, <<0, 0, 0>>, <<0, 0, 0>>>>

TInit ==
    /\ h \in 1..NH /\ l = 1
    /\ mem = [o \in 1..MaxO |-> IF o <= Len(H[h].obj) THEN H[h].obj[o].iv ELSE <<>>]
    /\ th = [t \in 1..MaxT |-> Idle]
    /\ now = T0 /\ dead = {}

Is(k) == l <= Len(Ev) /\ E.k = k
Adv == l' = l + 1 /\ UNCHANGED h

\* Internal steps only matter right before a return or a quiescent point, and a waiter that would look and find the old
\* value may as well look at once (a sleeping waiter can do everything a looking one can): canonical order.
AtSync == l <= Len(Ev) /\ E.k \in {"r", "q"}
MustLook(t) == th[t].st = "chk" /\ mem[th[t].o] = th[t].a
Internal ==
    /\ AtSync /\ UNCHANGED tvars
    /\ LET L == {t \in 1..H[h].nt : MustLook(t)} IN
       IF L # {} THEN Look(CHOOSE t \in L : TRUE)
       ELSE \E t \in 1..H[h].nt :
              \/ th[t].st = "inv" /\ (Lin(t, Kd(th[t].o), Es(th[t].o)) \/ NotifyOne(t) \/ NotifyAll(t))
              \/ Look(t) \/ Wake(t) \/ Timeout(t)

TNext ==
    \/ Is("c") /\ Adv /\ Call(E.t, E)
    \/ Is("r") /\ Adv /\ Return(E.t, E.v, E.f)
    \/ Is("t") /\ Adv /\ Tick(E.n)
    \/ Is("z") /\ Adv /\ Suspend(E.t)
    \/ Is("nap") /\ Adv /\ Nap(E.t, E.lf, E.nw)
    \/ Is("q") /\ Adv /\ Quiet /\ UNCHANGED vars
    \/ Internal
TSpec == TInit /\ [][TNext]_<<vars, tvars>>

\* register i: how far into history i some behaviour got; an accepted history is not explored further
ASSUME \A i \in 1..NH : TLCSet(i, 0)
Track == /\ (l > TLCGet(h) => TLCSet(h, l))
         /\ TLCGet(h) <= Len(Ev)
Rejected == {i \in 1..NH : TLCGet(i) <= Len(H[i].ev)}
Report == PrintT(<<"REJECTED", {<<i, TLCGet(i)>> : i \in Rejected}>>)
=============================================================================
