------------------------------ MODULE CppMemory ------------------------------
(***************************************************************************)
(* The C++ memory model (the C++20 / RC11 axioms, without an out-of-thin-air *)
(* axiom) at the level of the operations a program asks Boost.Atomic for.    *)
(* A record holds what each thread of a small program did and saw, in        *)
(* program order; it is allowed when some modification order of each object  *)
(* and some choice of the write each read takes its value from explain every *)
(* value and satisfy coherence, atomicity and the order of seq_cst actions.  *)
(*                                                                           *)
(* Event: t thread (0: initial value, 99: after all threads), k kind of      *)
(* location (o: atomic object, d: plain variable), o location, op, a, b      *)
(* operands, v value returned or read (-999: none), f flag returned (2:      *)
(* none), mo order, mf order of a failing compare_exchange, dep: position of *)
(* the consume load this read carries a dependency from (0: none).           *)
(* Values are small integers (see harness/lit.hpp).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, SequencesExt, Json, TLC, IOUtils

Recs == ndJsonDeserialize(IOEnv.RECS)
NRecs == Len(Recs)

\* the value an operation leaves, given the value it found; None when that is not what it reported
None == -1000
NoV == -999
S8(z) == IF z >= 128 THEN z - 256 ELSE z     \* bits: two's complement, every value fits a byte
BAnd(x, y) == S8((x % 256) & (y % 256))
BOr(x, y) == S8((x % 256) | (y % 256))
BXor(x, y) == S8((x % 256) ^^ (y % 256))
Pow(b) == 2^b
New(op, x, a, b) ==
    CASE op \in {"store", "exchange"} -> a
      [] op = "tas" -> 1 [] op = "clear" -> 0
      [] op \in {"fetch_add", "add", "o_add", "add_t"} -> x + a
      [] op \in {"fetch_sub", "sub", "o_sub", "sub_t"} -> x - a
      [] op \in {"preinc", "postinc"} -> x + 1 [] op \in {"predec", "postdec"} -> x - 1
      [] op \in {"fetch_neg", "neg", "o_neg", "neg_t"} -> -x
      [] op \in {"fetch_com", "com", "o_com", "com_t"} -> -x - 1
      [] op \in {"fetch_and", "and", "o_and", "and_t"} -> BAnd(x, a)
      [] op \in {"fetch_or", "or", "o_or", "or_t"} -> BOr(x, a)
      [] op \in {"fetch_xor", "xor", "o_xor", "xor_t"} -> BXor(x, a)
      [] op = "bts" -> BOr(x, Pow(a)) [] op = "btc" -> BXor(x, Pow(a)) [] op = "btr" -> IF BAnd(x, Pow(a)) = 0 THEN x ELSE x - Pow(a)
      [] op \in {"cas_s", "cas_w"} -> b
Olds == {"exchange", "fetch_add", "fetch_sub", "fetch_neg", "fetch_com", "fetch_and", "fetch_or", "fetch_xor", "postinc", "postdec", "cas_s", "cas_w"}
News == {"add", "sub", "neg", "com", "and", "or", "xor", "preinc", "predec"}
Tests == {"add_t", "sub_t", "neg_t", "com_t", "and_t", "or_t", "xor_t"}
Reported(e, x, p) ==   \* what it says about the value it found (x) and left (p)
    /\ p # None
    /\ (e.v # NoV => e.v = IF e.op \in Olds THEN x ELSE p)
    /\ (e.f # 2 => e.f = CASE e.op \in Tests -> IF p # 0 THEN 1 ELSE 0
                          [] e.op \in {"bts", "btr", "btc"} -> IF BAnd(x, Pow(e.a)) # 0 THEN 1 ELSE 0
                          [] e.op = "tas" -> IF x # 0 THEN 1 ELSE 0
                          [] e.op \in {"cas_s", "cas_w"} -> 1)
    /\ (e.op \in {"cas_s", "cas_w"} => x = e.a)

Kind(e) ==
    CASE e.op \in {"init", "store", "clear", "wr"} -> "W"
      [] e.op \in {"load", "test", "rd", "wait", "twait"} -> "R"
      [] e.op = "fence" -> "F"
      [] e.op \in {"cas_s", "cas_w"} -> IF e.f = 1 THEN "U" ELSE "R"
      [] e.op \in Olds \cup News \cup Tests \cup {"o_add", "o_sub", "o_neg", "o_com", "o_and", "o_or", "o_xor", "bts", "btr", "btc", "tas"} -> "U"
      [] OTHER -> "bad"
Ord(e) == IF e.op \in {"cas_s", "cas_w"} /\ e.f # 1 THEN e.mf ELSE e.mo
Acquires(e) == Ord(e) \in {2, 6, 14} \/ (e.op = "fence" /\ e.mo = 1)
Releases(e) == Ord(e) \in {4, 6, 14}
SeqCst(e) == Ord(e) = 14

\* a read explained by a write that left x
ReadOk(e, x) ==
    CASE e.op \in {"load", "rd"} -> e.v = x
      [] e.op = "test" -> e.f = IF x # 0 THEN 1 ELSE 0
      [] e.op \in {"wait", "twait"} -> e.v = x /\ x # e.a
      [] e.op \in {"cas_s", "cas_w"} -> e.v = x /\ (x # e.a \/ e.op = "cas_w")   \* only a weak one may fail on an equal value

Check(E) ==
  LET n == Len(E)
      I == 1..n
      K == TLCEval([i \in I |-> Kind(E[i])])
      Loc(i) == <<E[i].k, E[i].o>>
      Locs == {Loc(i) : i \in {j \in I : K[j] # "F"}}
      SB == TLCEval([i \in I |-> {j \in I : i # j /\ ((E[i].t = 0 /\ E[j].t # 0) \/ (E[j].t = 99 /\ E[i].t # 99) \/ (E[i].t = E[j].t /\ i < j))}])
      Writers(x) == {i \in I : K[i] \in {"W", "U"} /\ E[i].t # 0 /\ Loc(i) = x}
      First(x) == CHOOSE i \in I : E[i].t = 0 /\ Loc(i) = x
      Readers(x) == {i \in I : K[i] = "R" /\ Loc(i) = x}
      \* the values left along an order of the writes of a location; <<>> when some operation could not have reported what it did
      RECURSIVE Leave(_, _, _)
      Leave(s, q, p) ==
          IF q > Len(s) THEN p
          ELSE LET e == E[s[q]]  x == p[Len(p)] IN
               IF K[s[q]] = "W" THEN Leave(s, q + 1, Append(p, IF e.op = "clear" THEN 0 ELSE e.a))
               ELSE LET y == New(e.op, x, e.a, e.b) IN IF Reported(e, x, y) THEN Leave(s, q + 1, Append(p, y)) ELSE <<>>
      Vals(s) == Leave(s, 2, <<E[s[1]].a>>)
      MO(x) == {s \in {<<First(x)>> \o q : q \in SetToSeqs(Writers(x))} :
                  /\ \A i, j \in 1..Len(s) : i < j => s[i] \notin SB[s[j]]
                  /\ Vals(s) # <<>>}
      RF(x, s) == LET v == Vals(s) IN {c \in [Readers(x) -> 1..Len(s)] : \A r \in Readers(x) : ReadOk(E[r], v[c[r]])}
      \* all ways to choose both, for every location; reads that could not take a value at all leave none
      RECURSIVE Pick(_)
      Pick(xs) == IF xs = {} THEN {<<>>}
                  ELSE LET x == CHOOSE y \in xs : TRUE IN
                       LET cs == UNION {{<<s, c>> : c \in RF(x, s)} : s \in MO(x)} IN
                       IF cs = {} THEN {} ELSE {<<<<x, c[1], c[2]>>>> \o q : c \in cs, q \in Pick(xs \ {x})}
      Un(R, S) == TLCEval([i \in I |-> R[i] \cup S[i]])
      Comp(R, S) == TLCEval([i \in I |-> UNION {S[j] : j \in R[i]}])
      Step(R) == TLCEval([i \in I |-> R[i] \cup UNION {R[j] : j \in R[i]}])
      Clo(R) == IF n <= 8 THEN Step(Step(Step(R))) ELSE IF n <= 16 THEN Step(Step(Step(Step(R)))) ELSE Step(Step(Step(Step(Step(R)))))
      Refl(R) == [i \in I |-> R[i] \cup {i}]
      Only(R, A, B) == TLCEval([i \in I |-> IF i \in A THEN R[i] \cap B ELSE {}])
      Consistent(pick) ==
        LET At(i) == CHOOSE p \in ToSet(pick) : p[1] = Loc(i)
            Acc == {i \in I : K[i] # "F"}
            Pos == TLCEval([i \in Acc |-> IF K[i] = "R" THEN At(i)[3][i] ELSE CHOOSE q \in 1..Len(At(i)[2]) : At(i)[2][q] = i])   \* of the write, or of the write read
            M == TLCEval([i \in Acc |-> At(i)[2]])
            Wr(i) == K[i] \in {"W", "U"}
            mo == TLCEval([i \in I |-> IF i \in Acc /\ Wr(i) THEN {M[i][q] : q \in (Pos[i] + 1)..Len(M[i])} ELSE {}])
            from == TLCEval([i \in I |-> IF i \in Acc /\ K[i] = "R" THEN M[i][Pos[i]] ELSE IF i \in Acc /\ K[i] = "U" THEN M[i][Pos[i] - 1] ELSE 0])   \* a read-modify-write takes the value just before its own
            rf == TLCEval([i \in I |-> {j \in I : from[j] = i}])
            fr == TLCEval([i \in I |-> IF i \in Acc /\ K[i] \in {"R", "U"} THEN {M[i][q] : q \in (Pos[i] + 1)..Len(M[i])} ELSE {}])
            Heads(w) == LET s == M[w] IN {s[q] : q \in {q \in 1..Pos[w] : \A z \in (q + 1)..Pos[w] : K[s[z]] = "U"}}   \* heads of release sequences w belongs to
            RelSide(w) == (IF E[w].k = "o" /\ Releases(E[w]) THEN {w} ELSE {}) \cup {x \in I : K[x] = "F" /\ Releases(E[x]) /\ w \in SB[x] /\ E[x].t = E[w].t}
            AcqSide(r) == (IF E[r].k = "o" /\ Acquires(E[r]) THEN {r} ELSE {}) \cup {x \in SB[r] : K[x] = "F" /\ Acquires(E[x]) /\ E[x].t = E[r].t}
            At2(r) == UNION {RelSide(w) : w \in Heads(from[r])}
            SyncReads == {r \in I : from[r] # 0 /\ E[r].k = "o"}
            Dep(r) == {x \in SB[r] : E[x].dep = r}
            sw == TLCEval([i \in I |-> UNION {AcqSide(r) \cup Dep(r) : r \in {r \in SyncReads : i \in At2(r)}} \ {i}])
            hb == Clo(Un(SB, sw))
            eco == Clo(Un(Un(rf, mo), fr))
            loc2 == TLCEval([i \in I |-> IF i \in Acc THEN {j \in Acc : j # i /\ Loc(j) = Loc(i)} ELSE {}])
            hbloc == TLCEval([i \in I |-> hb[i] \cap loc2[i]])
            sbn == TLCEval([i \in I |-> SB[i] \ loc2[i]])
            scb == Un(Un(Un(SB, Comp(Comp(sbn, hb), sbn)), hbloc), Un(mo, fr))
            S == TLCEval({i \in I : E[i].k # "d" /\ SeqCst(E[i]) /\ E[i].t \notin {0, 99}})
            F == {i \in S : K[i] = "F"}
            L == TLCEval([i \in I |-> IF i \in S THEN IF i \in F THEN {i} \cup hb[i] ELSE {i} ELSE {}])            \* [S] u [F];hb?
            R == TLCEval([i \in I |-> (IF i \in S THEN {i} ELSE {}) \cup (hb[i] \cap F)])                             \* [S] u hb?;[F]
            psc == Un(Comp(Comp(L, scb), R), Only(Un(hb, Comp(Comp(hb, eco), hb)), F, F))
            pc == Clo(Only(psc, S, S))
        IN  /\ \A i \in I : i \notin hb[i] /\ \A j \in hb[i] : i \notin eco[j]
            /\ \A i \in I : i \notin eco[i]
            /\ Cardinality(S) > 1 => \A i \in S : i \notin pc[i]
  IN  /\ \A i \in I : K[i] # "bad"
      /\ \E p \in Pick(Locs) : Consistent(p)

VARIABLE i
Init == i = 1
Next == i <= NRecs /\ i' = i + 1
Spec == Init /\ [][Next]_i
Judge == i > NRecs \/ Check(Recs[i].ev) \/ PrintT(<<"BAD", i>>)
Done == PrintT(<<"CHECKED", TLCGet("distinct") - 1, NRecs>>)
=============================================================================
