----------------------------- MODULE MC_Steiner -----------------------------
(***************************************************************************)
(* Steiner chains.  Two kinds of behaviours:                               *)
(*  "gasket": a chain of three is a Descartes quadruple (outer circle and  *)
(*     three chain circles); a step replaces a chain circle by the other   *)
(*     circle tangent to the remaining three (curvatures are linear), and  *)
(*     the inner circle is the reflection of the outer one.  All exact.    *)
(*  "chain": the chain is built circle by circle between the outer circle  *)
(*     and the inner one, each circle the next one's neighbour, in the     *)
(*     frame before the inversion; when it has closed up, it is inverted.  *)
(*     (Square roots of 2 and 3 are rational approximations.)              *)
(***************************************************************************)
EXTENDS PSteiner, Scen
CONSTANTS Depth, Phis10, Scenarios
C(c, r) == vCircle(c, r)
Q(a, b) == RFrac(a, b)
VARIABLES kind, seq, n, phi, half, depth
vars == <<kind, seq, n, phi, half, depth>>
\* ---- quadruples <<outer, c1, c2, c3>> as <<curvature, curvature * centre>>
Curv(b, z) == <<b, VMul(b, z)>>
Refl(q, i) ==
  LET J == (1..4) \ {i}
      S(f(_)) == LET s == [k \in 1..3 |-> CHOOSE j \in J : Cardinality({x \in J : x < j}) = k - 1] IN RSumSeq([k \in 1..3 |-> f(q[s[k]])])
      B(x) == x[1]  X(x) == x[2][1]  Y(x) == x[2][2]
  IN <<(R2 ** S(B)) -- q[i][1], <<(R2 ** S(X)) -- q[i][2][1], (R2 ** S(Y)) -- q[i][2][2]>>>>
CircOf(x) == C(VMul(RInv(x[1]), x[2]), RInv(x[1]))
OuterOf(x) == C(VMul(RInv(x[1]), x[2]), RAbs(RInv(x[1])))
Root == <<Curv(RInt(-1), V0), Curv(R2, <<RHalf, R0>>), Curv(R2, <<RNeg(RHalf), R0>>), Curv(R3, <<R0, Q(2, 3)>>)>>
\* ---- the chain before the inversion
S3 == RFrac(708158977, 408855776)
S2 == RFrac(665857, 470832)
\* the unit vector at j times 15 degrees where it is a root expression
Cos15(j) ==
  LET k == ((j % 24) + 24) % 24  m == IF k > 12 THEN 24 - k ELSE k  p == IF m > 6 THEN 12 - m ELSE m
      v == CASE p = 0 -> R1 [] p = 2 -> S3 // R2 [] p = 3 -> S2 // R2 [] p = 4 -> RHalf [] p = 6 -> R0
  IN IF m > 6 THEN RNeg(v) ELSE v
Unit15(j) == <<Cos15(j), Cos15(j - 6)>>
SinPi(k) == CASE k = 3 -> S3 // R2 [] k = 4 -> S2 // R2 [] k = 6 -> RHalf
Out1 == C(<<Q(1, 2), RInt(-1)>>, R2)
RhoN(k) == (Out1.r ** SinPi(k)) // (R1 ++ SinPi(k))
Step(k, h, i) == \* the circle i (from 1), shift h/2
  C(VAdd(Out1.c, VMul(Out1.r -- RhoN(k), Unit15((((2 * (i - 1)) + h) * 12) \div k))), RhoN(k))
Inner0(k) == C(Out1.c, Out1.r -- (R2 ** RhoN(k)))
Init ==
  \/ kind = "gasket" /\ seq = Root /\ n = 3 /\ phi = R0 /\ half = 0 /\ depth = 0
  \/ kind = "chain" /\ seq = <<>> /\ n \in {3, 4, 6} /\ half \in {0, 1, 2, -3}
     /\ phi \in UNION {{RFrac(i, 10), RFrac(-i, 10)} : i \in Phis10} /\ depth = 0
Next ==
  \/ /\ kind = "gasket" /\ depth < Depth
     /\ \E i \in 2..4 : seq' = [seq EXCEPT ![i] = Refl(seq, i)]
     /\ depth' = depth + 1 /\ UNCHANGED <<kind, n, phi, half>>
  \/ /\ kind = "chain" /\ depth < n /\ seq' = Append(seq, Step(n, half, depth + 1)) /\ depth' = depth + 1
     /\ UNCHANGED <<kind, n, phi, half>>
  \/ /\ kind = "chain" /\ depth = n /\ kind' = "inverted" /\ UNCHANGED <<n, phi, half>> /\ depth' = n + 1
     /\ seq' = IF RZero(phi) THEN Append(seq, Inner0(n))
               ELSE [i \in 1..(n + 1) |-> LET c == IF i = n + 1 THEN Inner0(n) ELSE seq[i]
                                              G == InvG(SPole(Out1, phi), SPower(Out1, phi), GCircle(c.c, c.r))
                                          IN C(GCenter(G), (c.r ** SPower(Out1, phi)) // RAbs(D2(SPole(Out1, phi), c.c) -- RSq(c.r)))]
\* ---- laws
Descartes == kind = "gasket" =>
  /\ LET b == [i \in 1..4 |-> seq[i][1]] IN RSq(RSumSeq(b)) = R2 ** RSumSeq([i \in 1..4 |-> RSq(b[i])])
  /\ Chain(OuterOf(seq[1]), <<CircOf(seq[2]), CircOf(seq[3]), CircOf(seq[4])>>, CircOf(Refl(seq, 1)), R0) = {}
\* the centres of circles tangent to two nested circles are on an ellipse with foci at their centres
Foci == kind = "gasket" =>
  LET o == OuterOf(seq[1])  h == CircOf(Refl(seq, 1)) IN
  \A i \in 2..4 : LET c == CircOf(seq[i]) IN D2(c.c, o.c) = RSq(o.r -- c.r) /\ D2(c.c, h.c) = RSq(h.r ++ c.r)
Neg == kind = "gasket" =>
  LET o == OuterOf(seq[1])  a == CircOf(seq[2])  b == CircOf(seq[3])  c == CircOf(seq[4])  h == CircOf(Refl(seq, 1))  t == T6 ** o.r IN
  /\ Chain(o, <<a, b, [c EXCEPT !.r = @ ** Q(1001, 1000)]>>, h, T6 ** h.r) # {}
  /\ "tangent-to-the-inner-circle" \in Chain(o, <<a, b, c>>, [h EXCEPT !.r = @ ** Q(1001, 1000)], T6 ** h.r)
Porism == (kind = "chain" /\ depth >= 2) =>
  /\ OutTangent(seq[depth], seq[depth - 1], T6) /\ InTangent(Out1, seq[depth], T6) /\ OutTangent(seq[depth], Inner0(n), T6)
  /\ (depth = n) <=> (OutTangent(seq[depth], seq[1], T6) /\ depth > 2)
\* the radius of an inverse circle
RadiusLaw == (kind = "inverted" /\ ~RZero(phi)) => \A i \in 1..(n + 1) : GSame(InvG(SPole(Out1, phi), SPower(Out1, phi), GCircle(seq[i].c, seq[i].r)), LET c == IF i = n + 1 THEN Inner0(n) ELSE Step(n, half, i) IN GCircle(c.c, c.r))
Preserves == (kind = "inverted" /\ ~RZero(phi)) => GSame(InvG(SPole(Out1, phi), SPower(Out1, phi), GCircle(Out1.c, Out1.r)), GCircle(Out1.c, Out1.r))
\* a rational square root by Newton from above (x^2 >= s)
RECURSIVE Newton(_, _, _)
Newton(s, x, k) == IF k = 0 THEN x ELSE Newton(s, (x ++ (s // x)) // R2, k - 1)
Ev(c, k, f, s, r) == [i |-> 0, op |-> "steiner", a |-> <<c, [t |-> "num", v |-> RInt(k)], [t |-> "num", v |-> f], [t |-> "num", v |-> s]>>, r |-> r]
An(k, h) == [t |-> "list", v |-> [i \in 1..k |-> LET u == Unit15((((2 * (i - 1)) + h) * 12) \div k) IN
               [t |-> "ang", v |-> ((RInt(i - 1) ++ RFrac(h, 2)) ** TwoPi) // RInt(k), c |-> u[1], s |-> u[2]]]]
EllOf(o, h) == \* radii and centre of the ellipse of centres (axis along x)
  LET c == (h.c[1] -- o.c[1]) // R2  a == (h.r ++ o.r) // R2 IN
  [t |-> "ell", c |-> Mid(o.c, h.c), a |-> a, b |-> Newton(RSq(a) -- RSq(c), a, 5), u |-> C1]
Res(cs, L, k, h) == [t |-> "multi", v |-> <<[t |-> "dict", v |-> [circles |-> [t |-> "list", v |-> cs], ellipse |-> L]], An(k, h)>>]
SJudge(f, cs, L, h) == PostSteiner(Ev(Out1, n, f, RFrac(h, 2), Res(cs, L, n, h)))
Conform == kind = "inverted" =>
  LET cs == seq
      L == EllOf(Out1, cs[n + 1])
      rot == [i \in 1..(n + 1) |-> IF i = n + 1 THEN cs[i] ELSE cs[Nxt(i, n)]]
  IN /\ SJudge(phi, cs, L, half) = {}
     /\ SJudge(phi, rot, L, half) # {}
     /\ SJudge(phi, cs, L, half + 1) # {}
     /\ (~RZero(phi) => SJudge(RNeg(phi), cs, L, half) # {})
     /\ SJudge(phi, SubSeq(cs, 1, n), L, half) # {}
     /\ SJudge(phi, [cs EXCEPT ![n + 1].r = @ ** Q(1001, 1000)], L, half) = {"tangent-to-the-inner-circle"}
     /\ SJudge(phi, cs, [L EXCEPT !.b = @ ** Q(1001, 1000)], half) = {"ellipse-through-the-centres"}
Out == Scenarios =>
  /\ kind = "inverted" => \A k \in 3..14 : Emit("steiner", <<Out1, vInt(k), vNum(phi), vNum(RFrac(half, 4))>>)
  /\ (kind = "gasket" /\ depth < 3) => LET c == CircOf(seq[4]) IN \A k \in {3, 5, 9}, j \in {0, 3, -6} : Emit("steiner", <<c, vInt(k), vNum(RFrac(j, 10)), vNum(R1 -- c.r)>>)
=============================================================================
