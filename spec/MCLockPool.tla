---- MODULE MCLockPool ----
EXTENDS LockPool
W(o) == [op |-> "wait", o |-> o, a |-> 0]
TW(o) == [op |-> "twait", o |-> o, a |-> 0]
S(o, v) == [op |-> "store", o |-> o, a |-> v]
N1(o) == [op |-> "notify_one", o |-> o, a |-> 0]
NA(o) == [op |-> "notify_all", o |-> o, a |-> 0]
Shapes3 == {
  <<<<W(1)>>, <<S(1,1), N1(1)>>, <<TW(1)>>>>,
  <<<<W(1)>>, <<S(1,1), N1(1), N1(1)>>, <<W(1)>>>>,
  <<<<W(1)>>, <<S(1,1), NA(1)>>, <<W(1)>>>>,
  <<<<TW(1)>>, <<S(1,1), N1(1)>>, <<TW(1)>>>>,
  <<<<W(1)>>, <<S(1,1), N1(1), S(2,1), NA(2)>>, <<W(2)>>>>,
  <<<<W(1), W(2)>>, <<S(1,1), N1(1)>>, <<S(2,1), N1(2)>>>>,
  <<<<W(1)>>, <<S(1,1), N1(1), S(1,0)>>, <<TW(1)>>>> }
MenuDef == Shapes3
Emul2 == [o \in 1..2 |-> "emul"]
Pool2 == [o \in 1..2 |-> "pool"]
Mixed2 == [o \in 1..2 |-> IF o = 1 THEN "emul" ELSE "pool"]
Futex2 == [o \in 1..2 |-> "futex"]
Poll2 == [o \in 1..2 |-> "poll"]
====
