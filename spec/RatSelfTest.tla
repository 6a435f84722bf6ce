---------------------------- MODULE RatSelfTest ----------------------------
(* TLC compares the accelerated operators of Rat with RatPure's definitions *)
(* and both with TLC's own integers, on one state per pair of samples.      *)
EXTENDS Rat, TLC, FiniteSets
Pure == INSTANCE RatPure
Small == {-10000, -37, -3, -1, 0, 1, 2, 16, 9999, 123456}
Dens == {1, 3, 8, 10007}
Samples0 == {RFrac(p, q) : p \in Small, q \in Dens}
BigS == RMul(RFrac(123456789, 98765), RFrac(987654321, 1024))
VARIABLES a, b
Init == a \in Samples0 \cup {BigS, RMul(BigS, BigS), RNeg(BigS)} /\ b = R0
Next == b = R0 /\ b' \in Samples0 \cup {BigS, RDiv(BigS, RInt(77777))} /\ a' = a
Agree ==
  /\ RAdd(a, b) = Pure!RAdd(a, b)
  /\ RSub(a, b) = Pure!RSub(a, b)
  /\ RMul(a, b) = Pure!RMul(a, b)
  /\ (b # R0 => RDiv(a, b) = Pure!RDiv(a, b) /\ RMul(RDiv(a, b), b) = a)
  /\ RLe(a, b) = Pure!RLe(a, b)
  /\ RLt(a, b) = Pure!RLt(a, b)
  /\ RNeg(a) = Pure!RNeg(a)
  /\ RSub(RAdd(a, b), b) = a
Ints == \A p, q \in -12..12 : /\ RInt(p) = Pure!RInt(p)
                              /\ RAdd(RInt(p), RInt(q)) = RInt(p + q)
                              /\ RMul(RInt(p), RInt(q)) = RInt(p * q)
                              /\ (q # 0 => RFrac(p, q) = Pure!RFrac(p, q))
ASSUME Ints
=============================================================================
