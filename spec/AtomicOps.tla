----------------------------- MODULE AtomicOps -----------------------------
(***************************************************************************)
(* Sequential meaning of every Boost.Atomic operation, as a function from   *)
(* the value an object holds (pre) and the operands to the value it holds    *)
(* afterwards, the value returned and the flag returned.                     *)
(*                                                                           *)
(* A value is its value representation: a little-endian sequence of bytes.   *)
(* kd is the kind of the type:                                               *)
(*   "int"  integral and enum types (wrap-around arithmetic on the bytes)    *)
(*   "ptr"  pointers; es is the size of the pointed-to object, the operand   *)
(*          of arithmetic is a signed 8-byte difference                      *)
(*   "fp"   floating point. A value is <<n>> when it is the small integer n  *)
(*          (exact in every format); other values are compared, never        *)
(*          computed (the sequential harness supplies the language           *)
(*          operator's own result, see FpApply)                              *)
(*   "raw", "bool" types without arithmetic; "flag" atomic_flag             *)
(* A returned value is <<>> and a returned flag 2 when there is none.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise

Res(p, v, f) == [p |-> p, v |-> v, f |-> f]

-----------------------------------------------------------------------------
\* bytes
Zeros(n) == [i \in 1..n |-> 0]
Inv(x) == [i \in 1..Len(x) |-> 255 - x[i]]
\* x + y + c0 modulo 256^Len(x)
AddC(x, y, c0) ==
    LET carry[i \in 0..Len(x)] == IF i = 0 THEN c0 ELSE (x[i] + y[i] + carry[i-1]) \div 256
    IN  [i \in 1..Len(x) |-> (x[i] + y[i] + carry[i-1]) % 256]
AddB(x, y) == AddC(x, y, 0)
SubB(x, y) == AddC(x, Inv(y), 1)
NegB(x) == AddC(Zeros(Len(x)), Inv(x), 1)
\* x * k modulo 256^Len(x), for a small natural k
MulB(x, k) ==
    LET carry[i \in 0..Len(x)] == IF i = 0 THEN 0 ELSE (x[i] * k + carry[i-1]) \div 256
    IN  [i \in 1..Len(x) |-> (x[i] * k + carry[i-1]) % 256]
AndB(x, y) == [i \in 1..Len(x) |-> x[i] & y[i]]
OrB(x, y) == [i \in 1..Len(x) |-> x[i] | y[i]]
XorB(x, y) == [i \in 1..Len(x) |-> x[i] ^^ y[i]]
Pow2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32 [] k = 6 -> 64 [] k = 7 -> 128
\* bit k of x, and x with bit k replaced
BitOf(x, k) == (x[(k \div 8) + 1] \div Pow2(k % 8)) % 2
WithBit(x, k, b) == [x EXCEPT ![(k \div 8) + 1] = @ + (b - BitOf(x, k)) * Pow2(k % 8)]
NonZero(x) == IF \E i \in DOMAIN x : x[i] # 0 THEN 1 ELSE 0
One(kd, n) == IF kd = "ptr" THEN [i \in 1..8 |-> IF i = 1 THEN 1 ELSE 0] ELSE IF kd = "fp" THEN <<1>> ELSE [i \in 1..n |-> IF i = 1 THEN 1 ELSE 0]

-----------------------------------------------------------------------------
\* arithmetic
Plus(kd, es, x, a) == CASE kd = "ptr" -> AddB(x, MulB(a, es)) [] kd = "fp" -> <<x[1] + a[1]>> [] OTHER -> AddB(x, a)
Minus(kd, es, x, a) == CASE kd = "ptr" -> SubB(x, MulB(a, es)) [] kd = "fp" -> <<x[1] - a[1]>> [] OTHER -> SubB(x, a)
Negated(kd, x) == IF kd = "fp" THEN <<0 - x[1]>> ELSE NegB(x)

-----------------------------------------------------------------------------
\* operations
AddOps == {"fetch_add", "add", "o_add", "add_t", "pluseq"}
SubOps == {"fetch_sub", "sub", "o_sub", "sub_t", "minuseq"}
AndOps == {"fetch_and", "band", "o_and", "and_t", "andeq"}
OrOps  == {"fetch_or", "bor", "o_or", "or_t", "oreq"}
XorOps == {"fetch_xor", "bxor", "o_xor", "xor_t", "xoreq"}
ComOps == {"fetch_com", "bcom", "o_com", "com_t"}
NegOps == {"fetch_neg", "neg", "o_neg", "neg_t"}
IncDecOps == {"preinc", "postinc", "predec", "postdec"}
BitOps == {"bts", "btr", "btc"}

FetchForms == {"fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor", "fetch_com", "fetch_neg", "postinc", "postdec"}
NewForms == {"add", "sub", "band", "bor", "bxor", "bcom", "neg", "preinc", "predec", "pluseq", "minuseq", "andeq", "oreq", "xoreq"}
OpaqueForms == {"o_add", "o_sub", "o_and", "o_or", "o_xor", "o_com", "o_neg"}
TestForms == {"add_t", "sub_t", "and_t", "or_t", "xor_t", "com_t", "neg_t"}

\* the new value of a read-modify-write operation
NewVal(kd, es, op, x, a) ==
    CASE op \in AddOps -> Plus(kd, es, x, a)
      [] op \in SubOps -> Minus(kd, es, x, a)
      [] op \in {"preinc", "postinc"} -> Plus(kd, es, x, One(kd, Len(x)))
      [] op \in {"predec", "postdec"} -> Minus(kd, es, x, One(kd, Len(x)))
      [] op \in AndOps -> AndB(x, a)
      [] op \in OrOps -> OrB(x, a)
      [] op \in XorOps -> XorB(x, a)
      [] op \in ComOps -> Inv(x)
      [] op \in NegOps -> Negated(kd, x)

\* what the form of the operation returns, given old and new value
Form(op, x, y) ==
    CASE op \in FetchForms -> Res(y, x, 2)
      [] op \in NewForms -> Res(y, y, 2)
      [] op \in OpaqueForms -> Res(y, <<>>, 2)
      [] op \in TestForms -> Res(y, <<>>, NonZero(y))

RmwOps == AddOps \cup SubOps \cup AndOps \cup OrOps \cup XorOps \cup ComOps \cup NegOps \cup IncDecOps

\* the set of results operation op may have on value x (only a weak compare_exchange has more than one)
Results(kd, es, op, x, a, b) ==
    CASE op = "load" -> {Res(x, x, 2)}
      [] op = "store" -> {Res(a, <<>>, 2)}
      [] op = "assign" -> {Res(a, a, 2)}
      [] op = "exchange" -> {Res(a, x, 2)}
      [] op = "cas_s" -> IF x = a THEN {Res(b, a, 1)} ELSE {Res(x, x, 0)}
      [] op = "cas_w" -> IF x = a THEN {Res(b, a, 1), Res(x, x, 0)} ELSE {Res(x, x, 0)}
      [] op = "bts" -> {Res(WithBit(x, a[1], 1), <<>>, BitOf(x, a[1]))}
      [] op = "btr" -> {Res(WithBit(x, a[1], 0), <<>>, BitOf(x, a[1]))}
      [] op = "btc" -> {Res(WithBit(x, a[1], 1 - BitOf(x, a[1])), <<>>, BitOf(x, a[1]))}
      [] op = "init0" -> {Res(Zeros(Len(x)), <<>>, 2)}       \* value initialisation of an object
      [] op = "mkref" -> {Res(x, <<>>, 2)}                   \* creating and destroying an atomic_ref
      [] op = "test" -> {Res(x, <<>>, x[1])}
      [] op = "tas" -> {Res(<<1>>, <<>>, x[1])}
      [] op = "clear" -> {Res(<<0>>, <<>>, 2)}
      [] op \in RmwOps -> {Form(op, x, NewVal(kd, es, op, x, a))}

\* floating point: h is what the language's own operator yields for x and the operand
FpApply(op, x, h) == Form(op, x, h)
=============================================================================
