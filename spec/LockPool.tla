------------------------------ MODULE LockPool ------------------------------
(***************************************************************************)
(* The algorithms behind waiting and locking, one action per atomic access  *)
(* or system call: the futex mutex of src/lock_pool.cpp (lock bit, contended *)
(* bit, counter), its wait states and condition futexes (notification        *)
(* counter, requeueing onto the mutex), the list of wait states with its     *)
(* spare entries, clean-up at exit, and the four ways an object can wait:    *)
(*   "emul"  operations and waiting under the lock (wait_ops_emulated)       *)
(*   "pool"  lock-free value, waiting through the lock pool (wait_ops_generic)*)
(*   "futex" lock-free value, futex on the value itself (wait_ops_futex)     *)
(*   "poll"  lock-free value, repeated looks (inter-process wait_ops_generic) *)
(* All objects share one lock. Interruptions, spurious returns, allocation   *)
(* failures and the exit handlers are actions with a budget (Faults).        *)
(*                                                                           *)
(* TLC checks that this machine refines BoostAtomic (Refines), that nothing  *)
(* is lost when it comes to rest (AtRest), mutual exclusion and the safety   *)
(* of the bookkeeping.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Objects, Mech, Menu, Spins, Faults, Deadline
\* Menu: the possible programs, functions from Threads to sequences of calls [op, o, a, b]

VARIABLES
  prog,          \* remaining calls of each thread
  val,           \* the value stored in each object
  lk, ct,        \* mutex word: lock bit and contended bit; its counter is represented by fresh
  holder,        \* ghost: the thread between lock and unlock
  pc, k, k2,     \* where each thread is, and where lock / unlock continue
  snap, fresh,   \* last value of the mutex word a thread read, and whether the counter is still the same
  spin, same,    \* attempts left; whether the notification counter is still the one read
  ws, to, res,   \* wait state in use (0: none), kernel reported the time-out, result of the call <<v, f>>
  mq, cq,        \* threads asleep on the mutex futex, on the condition futex of each wait state
  vq,            \* threads asleep on the futex of an object
  list, spare,   \* wait states in use (object and id), spare ids
  ref, cnt,      \* references to and registered waiters of each wait state
  live, freeing, \* allocated wait states; exit handlers have run
  faults, tm,    \* faults left; time (0 or 1)
  ath            \* ghost: the state of each thread in BoostAtomic

lockvars == <<lk, ct, holder, mq>>
vars == <<prog, val, lk, ct, holder, pc, k, k2, snap, fresh, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>

Ids == 1..(Cardinality(Threads))
Cur(t) == Head(prog[t])
Timed(t) == Cur(t).op = "twait"
IsWait(t) == Cur(t).op \in {"wait", "twait"}
B(v) == <<v>>                                   \* a value as BoostAtomic represents it
NowOf(n) == <<<<n, 0, 0>>, <<n, 0, 0>>, <<n, 0, 0>>>>
Dl == <<Deadline, 0, 0>>

Abs == INSTANCE BoostAtomic WITH mem <- [o \in Objects |-> B(val[o])], th <- ath, now <- NowOf(tm), dead <- {}
Ev(c) == IF c.op = "twait" THEN [op |-> "twait", o |-> c.o, a |-> B(c.a), d |-> Dl, ck |-> 1]
         ELSE IF c.op = "wait" THEN [op |-> "wait", o |-> c.o, a |-> B(c.a)]
         ELSE [op |-> c.op, o |-> c.o, a |-> IF c.op = "store" THEN B(c.a) ELSE <<>>, b |-> <<>>]
AInit(c) == IF c.op = "twait" THEN [st |-> "chk", o |-> c.o, op |-> c.op, a |-> B(c.a), d |-> Dl, ck |-> 1, rch |-> tm >= Deadline]
            ELSE IF c.op = "wait" THEN [st |-> "chk", o |-> c.o, op |-> c.op, a |-> B(c.a)]
            ELSE [st |-> "inv", o |-> c.o, op |-> c.op, a |-> Ev(c).a, b |-> <<>>]
ADone(t, v, f) == [st |-> "done", v |-> v, f |-> f, op |-> Cur(t).op, o |-> Cur(t).o]
WF(t) == IF Timed(t) THEN 0 ELSE 2

Init ==
  /\ prog \in Menu
  /\ val = [o \in Objects |-> 0]
  /\ lk = FALSE /\ ct = FALSE /\ holder = 0
  /\ pc = [t \in Threads |-> "idle"] /\ k = [t \in Threads |-> "-"] /\ k2 = [t \in Threads |-> "-"]
  /\ snap = [t \in Threads |-> <<FALSE, FALSE>>] /\ fresh = [t \in Threads |-> FALSE]
  /\ spin = [t \in Threads |-> 0] /\ same = [t \in Threads |-> FALSE]
  /\ ws = [t \in Threads |-> 0] /\ to = [t \in Threads |-> FALSE] /\ res = [t \in Threads |-> <<<<>>, 2>>]
  /\ mq = {} /\ cq = [i \in Ids |-> {}] /\ vq = [o \in Objects |-> {}]
  /\ list = <<>> /\ spare = <<>> /\ ref = [i \in Ids |-> 0] /\ cnt = [i \in Ids |-> 0] /\ live = {} /\ freeing = FALSE
  /\ faults = Faults /\ tm = 0
  /\ ath = [t \in Threads |-> [st |-> "idle"]]

At(t, l) == pc[t] = l
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
\* what a thread read of the mutex word is of no further use (keeps the state space small)
NoSnap == <<FALSE, FALSE>>
Forget(t) == snap' = [snap EXCEPT ![t] = NoSnap] /\ fresh' = [fresh EXCEPT ![t] = FALSE] /\ spin' = [spin EXCEPT ![t] = 0]

---------------------------------------------------------------------------
\* calls and returns
Begin(t) ==
  /\ At(t, "idle") /\ prog[t] # <<>>
  /\ ath' = [ath EXCEPT ![t] = AInit(Cur(t))]
  /\ LET m == Mech[Cur(t).o]  op == Cur(t).op IN
     pc' = [pc EXCEPT ![t] =
        CASE op = "store" -> IF m = "emul" THEN "lock" ELSE "st"
          [] op \in {"notify_one", "notify_all"} -> IF m \in {"emul", "pool"} THEN "lock" ELSE IF m = "futex" THEN "fwake" ELSE "nop"
          [] OTHER -> IF m = "emul" THEN "lock" ELSE IF m = "pool" THEN "pl" ELSE IF m = "futex" THEN "f0" ELSE "poll"]
  /\ k' = [k EXCEPT ![t] = IF Cur(t).op = "store" THEN "lst" ELSE IF IsWait(t) THEN "w0" ELSE "n0"]
  /\ spin' = [spin EXCEPT ![t] = Spins]
  /\ to' = [to EXCEPT ![t] = FALSE]
  /\ UNCHANGED <<prog, val, lk, ct, holder, k2, snap, fresh, same, ws, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm>>
End(t) ==
  /\ At(t, "ret")
  /\ Go(t, "idle") /\ prog' = [prog EXCEPT ![t] = Tail(@)]
  /\ ath' = [ath EXCEPT ![t] = [st |-> "idle"]]
  /\ k' = [k EXCEPT ![t] = "-"] /\ k2' = [k2 EXCEPT ![t] = "-"] /\ Forget(t) /\ same' = [same EXCEPT ![t] = FALSE] /\ to' = [to EXCEPT ![t] = FALSE]
  /\ UNCHANGED <<val, lk, ct, holder, ws, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm>>

---------------------------------------------------------------------------
\* lock_state::long_lock, lock_slow_path, unlock
Word == <<lk, ct>>
Read(t) == snap' = [snap EXCEPT ![t] = Word] /\ fresh' = [fresh EXCEPT ![t] = TRUE]
Match(t) == fresh[t] /\ snap[t] = Word
Acquired(t) == lk' = TRUE /\ holder' = t /\ Go(t, k[t]) /\ Forget(t) /\ UNCHANGED <<ct>>
LockFast(t) ==
  /\ At(t, "lock") /\ Read(t)
  /\ IF spin[t] = 0 THEN Go(t, "s0") /\ UNCHANGED spin
     ELSE IF lk THEN spin' = [spin EXCEPT ![t] = @ - 1] /\ UNCHANGED pc
     ELSE Go(t, "l1") /\ UNCHANGED spin
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>
LockCas(t) ==
  /\ At(t, "l1")
  /\ IF Match(t) THEN Acquired(t)
     ELSE Go(t, "lock") /\ spin' = [spin EXCEPT ![t] = @ - 1] /\ UNCHANGED <<lk, ct, holder, snap, fresh>>
  /\ UNCHANGED <<prog, val, k, k2, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>
SlowRead(t) ==
  /\ At(t, "s0") /\ Read(t) /\ Go(t, "s1")
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>
SlowCas(t) ==
  /\ At(t, "s1")
  /\ IF ~Match(t) THEN Read(t) /\ UNCHANGED <<lk, ct, holder, pc, spin>>
     ELSE IF ~snap[t][1] THEN Acquired(t)
     ELSE ct' = TRUE /\ snap' = [snap EXCEPT ![t] = <<TRUE, TRUE>>] /\ Go(t, "s2") /\ UNCHANGED <<lk, holder, fresh, spin>>
  /\ UNCHANGED <<prog, val, k, k2, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>
SlowSleep(t) ==
  /\ At(t, "s2")
  /\ IF Match(t) THEN mq' = mq \cup {t} /\ Go(t, "s3") ELSE Go(t, "s0") /\ UNCHANGED mq
  /\ Forget(t)
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, same, ws, to, res, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>
SlowIntr(t) ==   \* interrupted or spurious return while asleep on the mutex
  /\ At(t, "s3") /\ t \in mq /\ faults > 0
  /\ mq' = mq \ {t} /\ Go(t, "s0") /\ faults' = faults - 1
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, cq, vq, list, spare, ref, cnt, live, freeing, tm, ath>>
UnlockRead(t) ==
  /\ At(t, "u0") /\ Read(t) /\ Go(t, "u1")
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>
UnlockCas(t) ==
  /\ At(t, "u1")
  /\ IF ~Match(t) THEN Read(t) /\ UNCHANGED <<lk, holder, pc>>
     ELSE /\ lk' = FALSE /\ holder' = 0
          /\ snap' = [u \in Threads |-> IF u = t /\ snap[t][2] THEN <<FALSE, ct>> ELSE NoSnap]
          /\ fresh' = [u \in Threads |-> u = t /\ snap[t][2]]    \* the counter moves on
          /\ Go(t, IF snap[t][2] THEN "u2" ELSE k2[t])
  /\ UNCHANGED <<prog, val, ct, k, k2, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>
\* where a thread asleep in the kernel continues
AfterSleep(u) == CASE pc[u] = "s3" -> "s0" [] pc[u] = "cw" -> "c1" [] pc[u] = "fw" -> "f0"
UnlockWake(t) ==
  /\ At(t, "u2")
  /\ IF mq = {} THEN Go(t, "u3") /\ UNCHANGED mq
     ELSE \E u \in mq : mq' = mq \ {u} /\ pc' = [pc EXCEPT ![t] = k2[t], ![u] = AfterSleep(u)]
  /\ IF mq = {} THEN UNCHANGED <<snap, fresh, spin>> ELSE Forget(t)
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, same, ws, to, res, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>
UnlockClear(t) ==
  /\ At(t, "u3") /\ Go(t, k2[t])
  /\ ct' = (IF Match(t) THEN FALSE ELSE ct) /\ Forget(t)
  /\ UNCHANGED <<prog, val, lk, holder, k, k2, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>

---------------------------------------------------------------------------
\* wait_state_list
Pos(o) == IF \E i \in 1..Len(list) : list[i].o = o THEN CHOOSE i \in 1..Len(list) : list[i].o = o ELSE 0
NewId == IF spare # <<>> THEN Head(spare) ELSE CHOOSE i \in Ids : i \notin live /\ \A j \in Ids : j \notin live => i <= j
\* erase: the last entry takes the place of the erased one, which becomes the first spare entry (or is freed at exit)
Erased(l, i) == LET n == Len(l) IN [j \in 1..(n - 1) |-> IF j = i THEN l[n] ELSE l[j]]
DropRef(t) ==
  LET id == ws[t] IN
  IF id = 0 THEN UNCHANGED <<list, spare, ref, live>>
  ELSE /\ ref' = [ref EXCEPT ![id] = @ - 1]
       /\ IF ref[id] > 1 THEN UNCHANGED <<list, spare, live>>
          ELSE LET i == CHOOSE j \in 1..Len(list) : list[j].id = id IN
               /\ list' = Erased(list, i)
               /\ IF freeing THEN spare' = <<>> /\ live' = live \ ({id} \cup {spare[j] : j \in 1..Len(spare)})
                  ELSE spare' = <<id>> \o spare /\ UNCHANGED live

---------------------------------------------------------------------------
\* operations under the lock
Unlock(t, then) == k2' = [k2 EXCEPT ![t] = then] /\ Go(t, "u0")
LockedStore(t) ==
  /\ At(t, "lst") /\ val' = [val EXCEPT ![Cur(t).o] = Cur(t).a]
  /\ ath' = [ath EXCEPT ![t] = ADone(t, <<>>, 2)] /\ Unlock(t, "ret")
  /\ UNCHANGED <<prog, lk, ct, holder, k, snap, fresh, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm>>
FreeStore(t) ==
  /\ At(t, "st") /\ val' = [val EXCEPT ![Cur(t).o] = Cur(t).a]
  /\ ath' = [ath EXCEPT ![t] = ADone(t, <<>>, 2)] /\ Go(t, "ret")
  /\ UNCHANGED <<prog, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm>>

\* waiters a notification of id is due to, as BoostAtomic sees them
ABlk(o) == {u \in Threads : ath[u].st = "blk" /\ ath[u].o = o}
ANotifyAll(t) == [u \in Threads |-> IF u = t THEN ADone(t, <<>>, 2) ELSE IF u \in ABlk(Cur(t).o) THEN [ath[u] EXCEPT !.st = "chk"] ELSE ath[u]]
ANotifyOne(t, u) == [ath EXCEPT ![t] = ADone(t, <<>>, 2), ![u].st = "chk"]
ANotifyNobody(t) == [ath EXCEPT ![t] = ADone(t, <<>>, 2)]
\* who looks again because of a notify_one that requeued u (0: nobody was asleep in the kernel): u, or else one of those
\* on their way; any of the latter will look
ATakes(t, u) == IF u # 0 /\ u \in ABlk(Cur(t).o) THEN ANotifyOne(t, u)
                ELSE IF ABlk(Cur(t).o) = {} THEN ANotifyNobody(t)
                ELSE LET away == {x \in ABlk(Cur(t).o) : ~(\E i \in Ids : x \in cq[i])} IN
                     IF away = {} THEN ANotifyNobody(t) \* not allowed by BoostAtomic: somebody is asleep and stays so
                     ELSE ANotifyOne(t, CHOOSE x \in away : TRUE)

NotifyCount(t) ==   \* m_cond += 1
  /\ At(t, "n0")
  /\ LET o == Cur(t).o  i == Pos(o) IN
     IF i = 0 THEN
        /\ ath' = IF Cur(t).op = "notify_all" THEN ANotifyAll(t) ELSE ATakes(t, 0)
        /\ Unlock(t, "ret") /\ UNCHANGED same
     ELSE LET id == list[i].id IN
        /\ same' = [u \in Threads |-> IF ws[u] = id THEN FALSE ELSE same[u]]
        /\ IF cnt[id] > 0 THEN Go(t, "n1") /\ UNCHANGED <<k2, ath>>
           ELSE /\ ath' = IF Cur(t).op = "notify_all" THEN ANotifyAll(t) ELSE ATakes(t, 0)
                /\ Unlock(t, "ret")
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, snap, fresh, spin, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm>>
NotifyRequeue(t) ==   \* FUTEX_REQUEUE from the condition to the mutex
  /\ At(t, "n1")
  /\ LET id == list[Pos(Cur(t).o)].id IN
     IF Cur(t).op = "notify_all"
     THEN mq' = mq \cup cq[id] /\ cq' = [cq EXCEPT ![id] = {}] /\ ath' = ANotifyAll(t)
     ELSE IF cq[id] = {} THEN ath' = ATakes(t, 0) /\ UNCHANGED <<mq, cq>>
     ELSE \E u \in cq[id] : mq' = mq \cup {u} /\ cq' = [cq EXCEPT ![id] = @ \ {u}] /\ ath' = ATakes(t, u)
  /\ Go(t, "n2")
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, vq, list, spare, ref, cnt, live, freeing, faults, tm>>
NotifyMark(t) ==   \* m_mutex |= contended
  /\ At(t, "n2") /\ ct' = TRUE /\ Unlock(t, "ret")
  /\ UNCHANGED <<prog, val, lk, holder, k, snap, fresh, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>

\* scoped_wait_state: lock, then find or create the wait state
WaitAlloc(t) ==
  /\ At(t, "w0")
  /\ LET o == Cur(t).o  i == Pos(o) IN
     \/ UNCHANGED faults /\
        IF i # 0 THEN ws' = [ws EXCEPT ![t] = list[i].id] /\ ref' = [ref EXCEPT ![list[i].id] = @ + 1] /\ UNCHANGED <<list, spare, live>>
        ELSE LET id == NewId IN
             /\ ws' = [ws EXCEPT ![t] = id] /\ ref' = [ref EXCEPT ![id] = 1]
             /\ list' = Append(list, [o |-> o, id |-> id])
             /\ spare' = (IF spare = <<>> THEN <<>> ELSE Tail(spare))
             /\ live' = live \cup {id}
     \/ i = 0 /\ spare = <<>> /\ faults > 0 /\ faults' = faults - 1 /\ ws' = [ws EXCEPT ![t] = 0] /\ UNCHANGED <<list, spare, live, ref>>
  /\ Go(t, "w1")
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, to, res, mq, cq, vq, cnt, freeing, tm, ath>>
Leave(t, v, f) ==
  /\ DropRef(t) /\ ws' = [ws EXCEPT ![t] = 0]
  /\ ath' = [ath EXCEPT ![t] = ADone(t, v, f)] /\ Unlock(t, "ret")
Asleep(t) == ath' = [ath EXCEPT ![t].st = "blk"]
\* looks at the value: leaves, gives up, or registers as a waiter and releases the lock
WaitLook(t) ==
  /\ At(t, "w1")
  /\ LET v == val[Cur(t).o] IN
     \/ v # Cur(t).a /\ Leave(t, B(v), WF(t)) /\ UNCHANGED <<same, cnt>>
     \/ v = Cur(t).a /\ Timed(t) /\ tm >= Deadline /\ Leave(t, B(v), 1) /\ UNCHANGED <<same, cnt>>
     \/ /\ v = Cur(t).a /\ ~to[t]
        /\ IF ws[t] = 0 THEN UNCHANGED <<same, cnt>> /\ Unlock(t, "pw") /\ Asleep(t)
           ELSE /\ same' = [same EXCEPT ![t] = TRUE] /\ cnt' = [cnt EXCEPT ![ws[t]] = @ + 1]
                /\ Unlock(t, "c0") /\ Asleep(t)
        /\ UNCHANGED <<list, spare, ref, live, ws>>
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, snap, fresh, spin, to, res, mq, cq, vq, freeing, faults, tm>>
CondSleep(t) ==
  /\ At(t, "c0")
  /\ \/ IF same[t] THEN cq' = [cq EXCEPT ![ws[t]] = @ \cup {t}] /\ Go(t, "cw") ELSE Go(t, "c2") /\ UNCHANGED cq
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, mq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>
CondIntr(t) ==
  /\ At(t, "cw") /\ faults > 0 /\ faults' = faults - 1
  /\ mq' = mq \ {t} /\ cq' = [i \in Ids |-> cq[i] \ {t}] /\ Go(t, "c1")
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, vq, list, spare, ref, cnt, live, freeing, tm, ath>>
CondTimeout(t) ==
  /\ At(t, "cw") /\ Timed(t) /\ tm >= Deadline
  /\ mq' = mq \ {t} /\ cq' = [i \in Ids |-> cq[i] \ {t}] /\ Go(t, "c2") /\ to' = [to EXCEPT ![t] = TRUE]
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, res, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>
CondAgain(t) ==   \* sleeps again unless the counter moved
  /\ At(t, "c1") /\ Go(t, IF same[t] THEN "c0" ELSE "c2")
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>
CondRelock(t) ==
  /\ (At(t, "c2") \/ At(t, "pr")) /\ Go(t, "lock") /\ spin' = [spin EXCEPT ![t] = Spins]
  /\ k' = [k EXCEPT ![t] = IF pc[t] = "c2" THEN "c3" ELSE "w1"]
  /\ k2' = [k2 EXCEPT ![t] = "-"] /\ same' = [same EXCEPT ![t] = FALSE]
  /\ UNCHANGED <<prog, val, lk, ct, holder, snap, fresh, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>
CondWoken(t) ==   \* the lock is held again: no longer a registered waiter
  /\ At(t, "c3") /\ cnt' = [cnt EXCEPT ![ws[t]] = @ - 1] /\ Go(t, "w1")
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, live, freeing, faults, tm, ath>>
\* without a wait state: short sleeps (wait_some) between looks
PollWait(t) ==
  /\ At(t, "pw") /\ (val[Cur(t).o] # Cur(t).a \/ ath[t].st = "chk" \/ (Timed(t) /\ tm >= Deadline))
  /\ Go(t, "pr")
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm, ath>>

---------------------------------------------------------------------------
\* first look of a lock-free object that waits through the pool
PoolLook(t) ==
  /\ At(t, "pl")
  /\ IF val[Cur(t).o] # Cur(t).a THEN ath' = [ath EXCEPT ![t] = ADone(t, B(val[Cur(t).o]), WF(t))] /\ Go(t, "ret")
     ELSE Go(t, "lock") /\ UNCHANGED ath
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm>>
\* native futex on the value
FutexLook(t) ==
  /\ At(t, "f0")
  /\ LET v == val[Cur(t).o] IN
     \/ v # Cur(t).a /\ ath' = [ath EXCEPT ![t] = ADone(t, B(v), WF(t))] /\ Go(t, "ret")
     \/ v = Cur(t).a /\ Timed(t) /\ tm >= Deadline /\ ath' = [ath EXCEPT ![t] = ADone(t, B(v), 1)] /\ Go(t, "ret")
     \/ v = Cur(t).a /\ ~to[t] /\ Go(t, "f1") /\ UNCHANGED ath
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm>>
FutexSleep(t) ==
  /\ At(t, "f1")
  /\ IF val[Cur(t).o] = Cur(t).a THEN vq' = [vq EXCEPT ![Cur(t).o] = @ \cup {t}] /\ Go(t, "fw") /\ Asleep(t)
     ELSE Go(t, "f0") /\ UNCHANGED <<vq, ath>>
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, mq, cq, list, spare, ref, cnt, live, freeing, faults, tm>>
FutexOut(t) ==    \* interrupted, or timed out
  /\ At(t, "fw") /\ vq' = [vq EXCEPT ![Cur(t).o] = @ \ {t}] /\ Go(t, "f0")
  /\ \/ faults > 0 /\ faults' = faults - 1 /\ UNCHANGED to
     \/ Timed(t) /\ tm >= Deadline /\ to' = [to EXCEPT ![t] = TRUE] /\ UNCHANGED faults
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, res, mq, cq, list, spare, ref, cnt, live, freeing, tm, ath>>
FutexWake(t) ==
  /\ At(t, "fwake")
  /\ LET o == Cur(t).o IN
     IF Cur(t).op = "notify_all"
     THEN /\ vq' = [vq EXCEPT ![o] = {}]
          /\ pc' = [u \in Threads |-> IF u = t THEN "ret" ELSE IF u \in vq[o] THEN "f0" ELSE pc[u]]
          /\ ath' = ANotifyAll(t)
     ELSE IF vq[o] = {} THEN Go(t, "ret") /\ ath' = ATakes(t, 0) /\ UNCHANGED vq
     ELSE \E u \in vq[o] : /\ vq' = [vq EXCEPT ![o] = @ \ {u}]
                           /\ pc' = [pc EXCEPT ![t] = "ret", ![u] = "f0"] /\ ath' = ANotifyOne(t, u)
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, mq, cq, list, spare, ref, cnt, live, freeing, faults, tm>>
\* polling objects: a notification does nothing, a waiter looks again and again
Nop(t) ==
  /\ At(t, "nop") /\ Go(t, "ret")
  /\ ath' = IF Cur(t).op = "notify_all" THEN ANotifyAll(t) ELSE IF ABlk(Cur(t).o) = {} THEN ANotifyNobody(t) ELSE ANotifyOne(t, CHOOSE u \in ABlk(Cur(t).o) : TRUE)
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm>>
PollLook(t) ==
  /\ At(t, "poll")
  /\ LET v == val[Cur(t).o] IN
     \/ v # Cur(t).a /\ ath' = [ath EXCEPT ![t] = ADone(t, B(v), WF(t))] /\ Go(t, "ret")
     \/ v = Cur(t).a /\ Timed(t) /\ tm >= Deadline /\ ath' = [ath EXCEPT ![t] = ADone(t, B(v), 1)] /\ Go(t, "ret")
     \/ v = Cur(t).a /\ ath[t].st = "chk" /\ ~(Timed(t) /\ tm >= Deadline) /\ Asleep(t) /\ UNCHANGED pc
  /\ UNCHANGED <<prog, val, lk, ct, holder, k, k2, snap, fresh, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults, tm>>

---------------------------------------------------------------------------
\* the exit handler (with the lock held, as one step) and the passing of time
Exit ==
  /\ faults > 0 /\ ~freeing /\ ~lk
  /\ freeing' = TRUE /\ live' = live \ {spare[j] : j \in 1..Len(spare)} /\ spare' = <<>>
  /\ faults' = faults - 1
  /\ UNCHANGED <<prog, val, lk, ct, holder, pc, k, k2, snap, fresh, spin, same, ws, to, res, mq, cq, vq, list, ref, cnt, tm, ath>>
TimePasses ==
  /\ tm < Deadline /\ tm' = tm + 1
  /\ ath' = [t \in Threads |-> IF ath[t].st \in {"chk", "blk"} /\ ath[t].op = "twait" THEN [ath[t] EXCEPT !.rch = @ \/ tm' >= Deadline] ELSE ath[t]]
  /\ UNCHANGED <<prog, val, lk, ct, holder, pc, k, k2, snap, fresh, spin, same, ws, to, res, mq, cq, vq, list, spare, ref, cnt, live, freeing, faults>>

Step(t) ==
  \/ Begin(t) \/ End(t) \/ LockFast(t) \/ LockCas(t) \/ SlowRead(t) \/ SlowCas(t) \/ SlowSleep(t)
  \/ UnlockRead(t) \/ UnlockCas(t) \/ UnlockWake(t) \/ UnlockClear(t) \/ LockedStore(t) \/ FreeStore(t)
  \/ NotifyCount(t) \/ NotifyRequeue(t) \/ NotifyMark(t) \/ WaitAlloc(t) \/ WaitLook(t)
  \/ CondSleep(t) \/ CondTimeout(t) \/ CondAgain(t) \/ CondRelock(t) \/ CondWoken(t) \/ PollWait(t)
  \/ PoolLook(t) \/ FutexLook(t) \/ FutexSleep(t) \/ FutexWake(t) \/ Nop(t) \/ PollLook(t) \/ FutexOut(t)
Fault == Exit \/ \E t \in Threads : SlowIntr(t) \/ CondIntr(t)
Next == (\E t \in Threads : Step(t)) \/ Fault \/ TimePasses
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* what is checked
AbsStep(t) == \/ Abs!Lin(t, "int", 1) \/ Abs!NotifyOne(t) \/ Abs!NotifyAll(t) \/ Abs!Look(t) \/ Abs!Wake(t) \/ Abs!Timeout(t)
              \/ (prog[t] # <<>> /\ Abs!Call(t, Ev(Cur(t))))
              \/ \E v \in {<<>>} \cup {B(x) : x \in 0..3}, f \in 0..2 : Abs!Return(t, v, f)
AbsNext == (\E t \in Threads : AbsStep(t)) \/ Abs!Tick(NowOf(tm'))
Refines == [][AbsNext]_<<val, ath, tm>>

Exclusive == \A t, u \in Threads : t # u => ~(pc[t] \in {"lst", "n0", "n1", "n2", "w0", "w1", "c3", "u0", "u1"} /\ pc[u] \in {"lst", "n0", "n1", "n2", "w0", "w1", "c3", "u0", "u1"})
HolderOK == lk <=> holder # 0
\* nothing can move without time passing or a fault: everybody is done, or asleep for a good reason
Moves(t) == \/ pc[t] \notin {"idle", "s3", "cw", "fw", "pw", "poll"}
            \/ pc[t] = "idle" /\ prog[t] # <<>>
            \/ pc[t] \in {"cw", "fw"} /\ Timed(t) /\ tm >= Deadline
            \/ pc[t] = "pw" /\ (val[Cur(t).o] # Cur(t).a \/ ath[t].st = "chk" \/ (Timed(t) /\ tm >= Deadline))
            \/ pc[t] = "poll" /\ (val[Cur(t).o] # Cur(t).a \/ ath[t].st = "chk" \/ (Timed(t) /\ tm >= Deadline))
Rest == \A t \in Threads : ~Moves(t)
AtRest == Rest => Abs!Quiet /\ ~lk /\ mq = {}
\* bookkeeping
ListOK == /\ \A i, j \in 1..Len(list) : i # j => list[i].o # list[j].o /\ list[i].id # list[j].id
          /\ \A i \in 1..Len(list) : list[i].id \in live /\ ref[list[i].id] > 0
          /\ \A i \in 1..Len(spare) : spare[i] \in live /\ ref[spare[i]] = 0
          /\ \A t \in Threads : ws[t] # 0 => ws[t] \in live /\ \E i \in 1..Len(list) : list[i].id = ws[t] /\ list[i].o = Cur(t).o
Reclaimed == (freeing /\ list = <<>>) => live = {}
Bounded == Cardinality(live) <= Cardinality(Objects)
=============================================================================
