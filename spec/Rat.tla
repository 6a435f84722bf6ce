-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rationals: RatPure's operators under the names TLC accelerates,   *)
(* with infix notation.  (TLC finds the class tlc2.module.Rat by the name  *)
(* of this module; without that class the specification still runs, only   *)
(* slowly.)                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL P == INSTANCE RatPure

RInt(i) == P!RInt(i)
RFrac(p, q) == P!RFrac(p, q)
RNeg(a) == P!RNeg(a)
RAdd(a, b) == P!RAdd(a, b)
RSub(a, b) == P!RSub(a, b)
RMul(a, b) == P!RMul(a, b)
RDiv(a, b) == P!RDiv(a, b)
RLe(a, b) == P!RLe(a, b)
RLt(a, b) == P!RLt(a, b)

a ++ b == RAdd(a, b)
a -- b == RSub(a, b)
a ** b == RMul(a, b)
a // b == RDiv(a, b)
a \preceq b == RLe(a, b)
a \prec b == RLt(a, b)

R0 == RInt(0)
R1 == RInt(1)
R2 == RInt(2)
R3 == RInt(3)
R4 == RInt(4)
RHalf == RFrac(1, 2)

RSgn(a) == a[1]
RZero(a) == a[1] = 0
RPos(a) == a[1] = 1
RNegv(a) == a[1] = -1
RAbs(a) == IF a[1] < 0 THEN RNeg(a) ELSE a
RSq(a) == RMul(a, a)
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RInv(a) == RDiv(R1, a)

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN R0 ELSE RAdd(Head(s), RSumSeq(Tail(s)))
RECURSIVE RMaxSeq(_)
RMaxSeq(s) == IF s = <<>> THEN R0 ELSE RMax(RAbs(Head(s)), RMaxSeq(Tail(s)))
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN R1 ELSE RMul(a, RPow(a, k - 1))
IsInteger(a) == a[3] = <<1>>
=============================================================================
