------------------------------ MODULE RatPure ------------------------------
(***************************************************************************)
(* Exact rational arithmetic of unbounded size in plain TLA+.              *)
(*                                                                         *)
(* A rational is <<s, N, D>>: a sign s \in {-1, 0, 1} and two magnitudes   *)
(* N, D (little-endian sequences of base-10000 digits, no leading zeros)   *)
(* with D > 0 and gcd(N, D) = 1; zero is <<0, <<>>, <<1>>>>.  The form is  *)
(* canonical, so equality of rationals is equality of TLA+ values.         *)
(*                                                                         *)
(* This module is the definition.  Rat.tla instantiates it; TLC replaces   *)
(* the operators of Rat.tla by the Java code in java/tlc2/module/Rat.java, *)
(* and RatSelfTest.tla makes TLC compare the two.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000

\* ---- magnitudes -----------------------------------------------------------
RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o MagOf(n \div Base)

RECURSIVE Trim(_)
Trim(m) == IF m = <<>> THEN m
           ELSE IF m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m

Dig(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
MaxLen(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0
                    ELSE IF Dig(a, i) < Dig(b, i) THEN -1
                    ELSE IF Dig(a, i) > Dig(b, i) THEN 1
                    ELSE CmpFrom(a, b, i - 1)
MagCmp(a, b) == CmpFrom(a, b, MaxLen(a, b))

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > MaxLen(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == Dig(a, i) + Dig(b, i) + c
       IN <<t % Base>> \o AddFrom(a, b, i + 1, t \div Base)
MagAdd(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==                                   \* requires a >= b
  IF i > Len(a) THEN <<>>
  ELSE LET t == Dig(a, i) - Dig(b, i) - c
       IN <<t % Base>> \o SubFrom(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
MagSub(a, b) == Trim(SubFrom(a, b, 1, 0))

RECURSIVE MulDigit(_, _, _, _)
MulDigit(a, d, i, c) ==
  IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET t == a[i] * d + c
       IN <<t % Base>> \o MulDigit(a, d, i + 1, t \div Base)
RECURSIVE MulFrom(_, _)
MulFrom(a, b) ==
  IF b = <<>> THEN <<>>
  ELSE MagAdd(Trim(MulDigit(a, Head(b), 1, 0)), Trim(<<0>> \o MulFrom(a, Tail(b))))
MagMul(a, b) == Trim(MulFrom(a, b))

\* long division; the quotient digit is found by bisection
RECURSIVE QDigit(_, _, _, _)
QDigit(r, d, lo, hi) ==                    \* largest q in lo..hi with q*d <= r
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF MagCmp(Trim(MulDigit(d, m, 1, 0)), r) <= 0
          THEN QDigit(r, d, m, hi) ELSE QDigit(r, d, lo, m - 1)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, d, i, r) ==                     \* <<quotient digits (big-endian), remainder>>
  IF i = 0 THEN <<<<>>, r>>
  ELSE LET r1 == Trim(<<a[i]>> \o r)
           q  == QDigit(r1, d, 0, Base - 1)
           rest == DivFrom(a, d, i - 1, MagSub(r1, Trim(MulDigit(d, q, 1, 0))))
       IN <<<<q>> \o rest[1], rest[2]>>
Reverse_(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
MagDivMod(a, d) == LET r == DivFrom(a, d, Len(a), <<>>)
                   IN <<Trim(Reverse_(r[1])), r[2]>>
MagDiv(a, d) == MagDivMod(a, d)[1]
MagMod(a, d) == MagDivMod(a, d)[2]

RECURSIVE MagGcd(_, _)
MagGcd(a, b) == IF b = <<>> THEN a ELSE MagGcd(b, MagMod(a, b))

\* ---- rationals ------------------------------------------------------------
Make(s, n, d) ==
  IF n = <<>> THEN <<0, <<>>, <<1>>>>
  ELSE LET g == MagGcd(n, d) IN <<s, MagDiv(n, g), MagDiv(d, g)>>

Sgn(i) == IF i < 0 THEN -1 ELSE IF i > 0 THEN 1 ELSE 0
Abs_(i) == IF i < 0 THEN -i ELSE i

RInt(i) == Make(Sgn(i), MagOf(Abs_(i)), <<1>>)
RFrac(p, q) == Make(Sgn(p) * Sgn(q), MagOf(Abs_(p)), MagOf(Abs_(q)))

RNeg(a) == <<-a[1], a[2], a[3]>>
RAdd(a, b) ==
  LET p == MagMul(a[2], b[3])
      q == MagMul(b[2], a[3])
      d == MagMul(a[3], b[3])
  IN IF a[1] = 0 THEN b
     ELSE IF b[1] = 0 THEN a
     ELSE IF a[1] = b[1] THEN Make(a[1], MagAdd(p, q), d)
     ELSE IF MagCmp(p, q) >= 0 THEN Make(a[1], MagSub(p, q), d)
     ELSE Make(b[1], MagSub(q, p), d)
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == Make(a[1] * b[1], MagMul(a[2], b[2]), MagMul(a[3], b[3]))
RDiv(a, b) == Make(a[1] * b[1], MagMul(a[2], b[3]), MagMul(a[3], b[2]))
RLe(a, b) == LET d == RSub(a, b) IN d[1] <= 0
RLt(a, b) == LET d == RSub(a, b) IN d[1] < 0
=============================================================================
