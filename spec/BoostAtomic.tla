---------------------------- MODULE BoostAtomic ----------------------------
(***************************************************************************)
(* What a program may observe of Boost.Atomic objects: every operation acts *)
(* in one indivisible step between its call and its return (Lin); waiting    *)
(* operations block until they see a different value, a deadline passes or   *)
(* they are notified and look again; nothing private to the library shows.   *)
(*                                                                           *)
(* mem[o]  value of object o          th[t]  the call thread t is executing  *)
(* now     virtual time (clock -> <<Msec, sec, nsec>>)                             *)
(* dead    threads suspended forever                                         *)
(***************************************************************************)
EXTENDS AtomicOps, FiniteSets

CONSTANTS Threads, Objects
VARIABLES mem, th, now, dead
vars == <<mem, th, now, dead>>

\* A call in progress. st: "inv" called, effect not yet taken; "done" effect taken, not yet returned;
\* waiting operations: "chk" about to look at the value, "blk" looked, saw the awaited old value, sleeping.
\* rch: the deadline of a timed wait has been reached at some moment during the call.
Idle == [st |-> "idle"]
Pending(t) == th[t].st # "idle"
WaitOps == {"wait", "twait"}
NotifyOps == {"notify_one", "notify_all"}

\* times are sequences of numbers, most significant first
Later(x, y) == IF x[1] # y[1] THEN x[1] > y[1] ELSE IF x[2] # y[2] THEN x[2] > y[2] ELSE x[3] >= y[3]  \* x not before y

KindOf(o, kinds) == kinds[o]

Call(t, e) ==
    /\ th[t].st = "idle" /\ t \notin dead
    /\ th' = [th EXCEPT ![t] =
         IF e.op = "twait" THEN [st |-> "chk", o |-> e.o, op |-> e.op, a |-> e.a, d |-> e.d, ck |-> e.ck, rch |-> Later(now[e.ck], e.d)]
         ELSE IF e.op = "wait" THEN [st |-> "chk", o |-> e.o, op |-> e.op, a |-> e.a]
         ELSE [st |-> "inv", o |-> e.o, op |-> e.op, a |-> e.a, b |-> e.b]]
    /\ UNCHANGED <<mem, now, dead>>

Done(c, v, f) == [st |-> "done", v |-> v, f |-> f, op |-> c.op, o |-> c.o]

\* the single point where an operation takes effect; kd, es: kind and element size of its object
Lin(t, kd, es) ==
    /\ th[t].st = "inv" /\ th[t].op \notin NotifyOps
    /\ \E r \in Results(kd, es, th[t].op, mem[th[t].o], th[t].a, th[t].b) :
         /\ mem' = [mem EXCEPT ![th[t].o] = r.p]
         /\ th' = [th EXCEPT ![t] = Done(@, r.v, r.f)]
    /\ UNCHANGED <<now, dead>>

Blocked(o) == {u \in Threads : th[u].st = "blk" /\ th[u].o = o}

\* a notification makes one (all) of the threads asleep on this object look again
NotifyOne(t) ==
    /\ th[t].st = "inv" /\ th[t].op = "notify_one"
    /\ IF Blocked(th[t].o) = {}
       THEN th' = [th EXCEPT ![t] = Done(@, <<>>, 2)]
       ELSE \E u \in Blocked(th[t].o) : th' = [th EXCEPT ![t] = Done(@, <<>>, 2), ![u].st = "chk"]
    /\ UNCHANGED <<mem, now, dead>>
NotifyAll(t) ==
    /\ th[t].st = "inv" /\ th[t].op = "notify_all"
    /\ th' = [u \in Threads |-> IF u = t THEN Done(th[t], <<>>, 2) ELSE IF u \in Blocked(th[t].o) THEN [th[u] EXCEPT !.st = "chk"] ELSE th[u]]
    /\ UNCHANGED <<mem, now, dead>>

WaitFlag(c) == IF c.op = "twait" THEN 0 ELSE 2
\* a waiter looks: it leaves with a value different from the awaited old one, or goes to sleep
Look(t) ==
    /\ th[t].st = "chk"
    /\ th' = [th EXCEPT ![t] = IF mem[@.o] # @.a THEN Done(@, mem[@.o], WaitFlag(@)) ELSE [@ EXCEPT !.st = "blk"]]
    /\ UNCHANGED <<mem, now, dead>>
\* spurious wake-up (also: implementations that poll); harmless when the value is still the old one
Wake(t) ==
    /\ th[t].st = "blk" /\ mem[th[t].o] # th[t].a
    /\ th' = [th EXCEPT ![t] = Done(@, mem[@.o], WaitFlag(@))]
    /\ UNCHANGED <<mem, now, dead>>
\* a timed wait gives up: the deadline has been reached and its last look (possibly this one) saw the old value
Timeout(t) ==
    /\ th[t].st \in {"chk", "blk"} /\ th[t].op = "twait" /\ th[t].rch /\ mem[th[t].o] = th[t].a
    /\ th' = [th EXCEPT ![t] = Done(@, @.a, 1)]
    /\ UNCHANGED <<mem, now, dead>>

Return(t, v, f) ==
    /\ th[t].st = "done" /\ th[t].v = v /\ th[t].f = f
    /\ th' = [th EXCEPT ![t] = Idle]
    /\ UNCHANGED <<mem, now, dead>>

Tick(n) ==
    /\ now' = n
    /\ th' = [t \in Threads |-> IF th[t].st \in {"chk", "blk"} /\ th[t].op = "twait" THEN [th[t] EXCEPT !.rch = @ \/ Later(n[th[t].ck], th[t].d)] ELSE th[t]]
    /\ UNCHANGED <<mem, dead>>

Suspend(t) == t \notin dead /\ dead' = dead \cup {t} /\ UNCHANGED <<mem, th, now>>

\* a thread pauses for some time in the middle of a call: a lock-free operation, or a wait said to be native, never does
Nap(t, lf, nw) ==
    /\ Pending(t)
    /\ IF th[t].op \in WaitOps \cup NotifyOps THEN nw = 0 ELSE lf = 0
    /\ UNCHANGED vars

\* Nothing can run any more before time advances: every call that has not returned is a waiter that looked after
\* the last notification it was entitled to, saw the old value, and whose deadline has not been reached.
\* (A thread suspended forever is excused; nobody else is.)
Quiet == \A t \in Threads \ dead : th[t].st = "idle" \/ (th[t].st = "blk" /\ (th[t].op = "twait" => ~th[t].rch))
=============================================================================
