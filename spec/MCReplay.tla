------------------------------ MODULE MCReplay ------------------------------
(***************************************************************************)
(* Behaviours of LockPool in a form the engine can replay on the real code: *)
(* a thread runs from one meeting point (read-modify-write of a lock word or *)
(* counter, seq_cst store, system call) to just before the next without      *)
(* interruption, and sch records which thread ran each of these slices       *)
(* (0: time reached the deadline). feat records what happened in them, so     *)
(* that a small set of behaviours covering all of it can be picked.           *)
(***************************************************************************)
EXTENDS MCLockPool, Json, IOUtils
VARIABLES cur, sch, feat, out, prog0, fifo
rvars == <<vars, cur, sch, feat, out, prog0, fifo>>

\* where a thread stands before a meeting point (the others are passed within a slice)
Meeting == {"l1", "s1", "s2", "u1", "u2", "u3", "n0", "n1", "n2", "c0", "st", "f1", "fwake"}
Asleep0 == {"s3", "cw", "fw"}
Started(t) == \E i \in 1..Len(sch) : sch[i] = t
Ended(t) == At(t, "idle") /\ prog[t] = <<>>
\* thread t goes on within its slice
\* nobody to notify: no counter to increment; the first wait state: the pool registers its exit handler
Within(t) == /\ t # 0 /\ ~Ended(t) /\ (pc[t] \notin Meeting \cup Asleep0 \/ (pc[t] = "n0" /\ Pos(Cur(t).o) = 0))
             /\ ~(pc[t] = "w0" /\ live = {})
\* asleep in the kernel, but past the deadline: may run
Expired(t) == pc[t] \in {"cw", "fw"} /\ Timed(t) /\ tm >= Deadline
CanRun(t) == ~Ended(t) /\ (pc[t] \notin Asleep0 \/ Expired(t))
\* what a slice starts with, and how it came out
Cond(t) == <<lk, ct, Cardinality(mq), Cardinality(UNION {cq[i] : i \in Ids}), IF pc[t] \in {"l1", "s1", "s2", "u1", "u3"} THEN Match(t) ELSE same[t], tm, to[t], Len(list), Len(spare)>>
RInit == Init /\ fifo = <<>> /\ cur = 0 /\ sch = <<>> /\ feat = <<>> /\ out = [t \in Threads |-> <<>>] /\ prog0 = prog
\* the kernel wakes and requeues sleepers in the order in which they came
InC == UNION {cq[i] : i \in Ids}
InV == UNION {vq[o] : o \in Objects}
FirstIn(q) == CHOOSE u \in q : \A w \in q \ {u} : \E i, j \in 1..Len(fifo) : i < j /\ fifo[i] = u /\ fifo[j] = w
Queues ==
  LET slept == mq \cup InC \cup InV  sleep2 == mq' \cup UNION {cq'[i] : i \in Ids} \cup UNION {vq'[o] : o \in Objects}
      moved == InC \cap mq'
      stay(u) == u \in sleep2 /\ u \notin moved
      went(u) == u \in moved
      new == sleep2 \ slept
  IN fifo' = SelectSeq(fifo, stay) \o SelectSeq(fifo, went) \o (IF new = {} THEN <<>> ELSE <<CHOOSE u \in new : TRUE>>)
InOrder(t) ==
  CASE pc[t] = "u2" /\ mq # {} -> mq \ mq' = {FirstIn(mq)}
    [] pc[t] = "n1" /\ Cur(t).op = "notify_one" /\ InC # InC' -> InC \ InC' = {FirstIn(cq[list[Pos(Cur(t).o)].id])}
    [] pc[t] = "fwake" /\ Cur(t).op = "notify_one" /\ vq # vq' -> vq[Cur(t).o] \ vq'[Cur(t).o] = {FirstIn(vq[Cur(t).o])}
    [] pc[t] \in {"w1", "f0"} /\ Timed(t) -> (ath'[t].st = "done" /\ ath'[t].f = 1) => to[t]      \* an absolute timeout: only the kernel looks at the clock
    [] OTHER -> TRUE
RNext ==
  /\ UNCHANGED prog0
  /\ \/ /\ Within(cur) /\ Step(cur) /\ InOrder(cur) /\ UNCHANGED <<cur, sch>>
       /\ feat' = (IF pc[cur] \in {"w0", "w1"} THEN Append(feat, <<pc[cur], pc'[cur], Cond(cur)>>) ELSE feat)
     \/ /\ ~Within(cur)
       /\ \/ \E t \in Threads : /\ CanRun(t) /\ Step(t) /\ InOrder(t) /\ cur' = t /\ sch' = Append(sch, t)
                                /\ feat' = Append(feat, <<pc[t], pc'[t], Cond(t)>>)
          \/ /\ \E t \in Threads : prog[t] # <<>> /\ Timed(t) /\ pc[t] \in {"cw", "fw", "c0", "f1"}
             /\ TimePasses /\ sch' = Append(sch, 0) /\ cur' = 0 /\ feat' = Append(feat, <<"time", "", <<lk, ct, Cardinality(mq)>>>>)
  /\ out' = [t \in Threads |-> IF prog'[t] # prog[t] THEN Append(out[t], <<ath[t].v, ath[t].f>>) ELSE out[t]]   \* calls that return
  /\ Queues
RSpec == RInit /\ [][RNext]_rvars
Over == ~\E t \in Threads : CanRun(t)
Out == (Over /\ (tm >= Deadline \/ \A t \in Threads : Ended(t))) => PrintT("SCH " \o ToJson([g |-> prog0, p |-> sch, f |-> feat, r |-> out]))
=============================================================================
