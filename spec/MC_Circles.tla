----------------------------- MODULE MC_Circles -----------------------------
(***************************************************************************)
(* Two circles, a line and a point under exact motions of the plane: the   *)
(* relative position, the powers and the angle never change, and the       *)
(* radical objects move along.                                             *)
(***************************************************************************)
EXTENDS PCirc, Scen
CONSTANTS Depth, Wide, Scenarios

C(c, r) == [t |-> "circle", c |-> c, r |-> r]
Ln(A, B) == [t |-> "line", A |-> A, B |-> B, ea |-> TRUE, eb |-> TRUE]
Rads == {R1, R2, R3, RInt(5)} \cup (IF Wide THEN {RInt(4), RHalf, RInt(13)} ELSE {})
Offs == {IPt(0, 0), IPt(1, 0), IPt(0, -2), IPt(3, 4), IPt(6, -8), IPt(0, 5), IPt(-2, 1)} \cup (IF Wide THEN {IPt(-5, 12), IPt(7, 0), IPt(2, 3)} ELSE {})
LinesOf == {Ln(IPt(1, -2), IPt(1, 3)), Ln(IPt(-4, 5), IPt(7, 5)), Ln(IPt(0, 0), IPt(1, 0)), Ln(IPt(0, -5), IPt(-5, 0)), Ln(IPt(2, 9), IPt(9, 8)),
            \* 3x + 4y = 25 : tangent to the circle of radius 5 around the origin
            Ln(IPt(3, 4), IPt(-1, 7))}
VARIABLES a, b, l, p, rel, depth
vars == <<a, b, l, p, rel, depth>>
Scale2(A) == AffDet(A)                               \* the motions are similarities
Where(c, x, q) == [pos |-> Meet(a.c, a.r, b.c, b.r)]
TouchL(c, h) == RSgn((RSq(c.r) ** N2(Dir(h))) -- RSq(Cross(Dir(h), VSub(h.A, c.c))))
Rel(c, d, h, q) == [pos |-> Meet(c.c, c.r, d.c, d.r), cosine |-> CosAngle(c, d), tl |-> TouchL(c, h), ml |-> TouchL(d, h),
                    inn |-> RSgn(Pow(c, q)), ratio |-> Pow(c, q) // RSq(c.r)]
Init == /\ \E r \in Rads : a = C(IPt(0, 0), r)
        /\ \E o \in Offs, r \in Rads : b = C(o, r)
        /\ l \in LinesOf /\ p \in {IPt(3, 4), IPt(1, 0), IPt(0, -2)}
        /\ rel = Rel(a, b, l, p) /\ depth = 0
\* similarities with a known ratio
Motions == {<<RotMap(IPt(1, 0), RFrac(3, 5), RFrac(4, 5)), R1>>, <<RotMap(IPt(2, -1), R0, R1), R1>>,
            <<IdTrans(IPt(-2, 5)), R1>>, <<HomMap(IPt(1, 1), RInt(-2)), R2>>, <<ReflMap(IPt(0, 1), IPt(1, 3)), R1>>}
MvC(A, k, c) == C(AffApply(A, c.c), k ** c.r)
Next == /\ depth < Depth /\ depth' = depth + 1 /\ rel' = rel
        /\ \/ \E M \in Motions : LET A == M[1]  k == M[2] IN
                /\ a' = MvC(A, k, a) /\ b' = MvC(A, k, b) /\ p' = AffApply(A, p)
                /\ l' = Ln(AffApply(A, l.A), AffApply(A, l.B))

\* ---- laws -----------------------------------------------------------------
Preserved == Rel(a, b, l, p) = rel
\* the relative position by the angle's cosine
Trichotomy ==
  /\ rel.pos = "outside" <=> (R1 \prec rel.cosine)
  /\ rel.pos = "ext-tangent" <=> rel.cosine = R1
  /\ (rel.pos \in {"int-tangent", "equal"}) <=> rel.cosine = RInt(-1)
  /\ rel.pos = "inside" <=> (rel.cosine \prec RInt(-1))
Radical == a.c # b.c =>
  LET Q == RadPt(a, b)  G == RadG(a, b) IN
  /\ Pow(a, Q) = Pow(b, Q) /\ RZero(Cross(VSub(Q, a.c), VSub(b.c, a.c))) /\ OnG(G, Q)
  /\ RZero(Cross(GB(G), VSub(b.c, a.c)))
  /\ \A k \in {R1, RInt(-3)} : LET X == VAdd(Q, VMul(k, Perp(VSub(b.c, a.c)))) IN Pow(a, X) = Pow(b, X)
Third == C(VAdd(a.c, VAdd(Perp(VSub(b.c, a.c)), IPt(1, 1))), R2)
Radical3 ==
  LET v == VSub(b.c, a.c)  w == VSub(Third.c, a.c) IN
  ~RZero(Cross(v, w)) => LET Q == RadPt3(a, b, Third) IN Pow(a, Q) = Pow(b, Q) /\ Pow(a, Q) = Pow(Third, Q)
\* an inversion fixing circle a sends a circle orthogonal to a to itself
Orthogonal ==
  RZero(rel.cosine) <=> (a.c # b.c /\ GSame(InvG(a.c, RSq(a.r), GFig(b)), GFig(b)))
\* power = product of the distances along the line through the point and the centre
PowerLaw == ~RZero(Pow(a, p)) =>
  LET G == GFig(a) IN GEval(G, p) = Pow(a, p)

\* ---- the post-conditions accept the exact outcome and refuse wrong ones ---
Ev(op, x, r) == [i |-> 0, op |-> op, a |-> x, r |-> r]
B(x) == [t |-> "bool", v |-> x]
Mu(s) == [t |-> "multi", v |-> s]
Bin(op, x, y) == PostCirc(Ev(op, x, B(y))) = {} /\ PostCirc(Ev(op, x, B(~y))) # {}
Conform ==
  /\ Bin("orthq", <<a, b>>, RZero(rel.cosine))
  /\ Bin("circ.eq", <<a, b>>, rel.pos = "equal")
  /\ PostCirc(Ev("power", <<a, vPt(p)>>, [t |-> "num", v |-> Pow(a, p)])) = {}
  /\ PostCirc(Ev("power", <<a, vPt(p)>>, [t |-> "num", v |-> Pow(a, p) ++ RFrac(1, 1000)])) # {}
  /\ a.c # b.c =>
      /\ PostCirc(Ev("rad2", <<a, b>>, Mu(<<vPt(RadPt(a, b)), Ln(RadPt(a, b), VAdd(RadPt(a, b), Perp(VSub(a.c, b.c))))>>))) = {}
      /\ PostCirc(Ev("rad2", <<a, b>>, Mu(<<vPt(VAdd(RadPt(a, b), IPt(1, 0))), Ln(RadPt(a, b), VAdd(RadPt(a, b), VSub(a.c, b.c)))>>)))
           = {"radical-centre-of-two", "radical-axis-equal-power"}
      /\ PostCirc(Ev("rad2", <<a, b>>, Mu(<<vPt(RadPt(a, b)), [Ln(RadPt(a, b), VAdd(RadPt(a, b), Perp(VSub(a.c, b.c)))) EXCEPT !.eb = FALSE]>>))) = {"whole-line"}
  /\ depth = 0 => LET x == Pow(a, p) IN
       /\ PostCirc(Ev("mem", <<a, vPt(p)>>, Mu(<<B(RZero(x)), B(~RPos(x))>>))) = {}
       /\ PostCirc(Ev("mem", <<a, vPt(p)>>, Mu(<<B(~RZero(x)), B(~RPos(x))>>))) # {}
  \* disjoint figures give nothing; tangency gives the one point; a pair must be two points
  /\ LET none == Mu(<<vNone, vNone, vNone>>)
         f == Foot(l, a.c)
         one == Mu(<<vPt(f), vPt(f), vPt(f)>>)
         post(r) == PostLin(Ev("x.cl", <<a, l>>, r))
     IN CASE rel.tl = -1 -> post(none) = {} /\ post(one) # {}
          [] rel.tl = 0 -> post(one) = {} /\ post(none) # {}
          [] rel.tl = 1 -> post(none) # {} /\ post(one) # {}
  /\ LET w == VSub(b.c, a.c)
         none == Mu(<<vNone, vNone>>)
         tp == IF rel.pos = "ext-tangent" THEN VAdd(a.c, VMul(a.r // (a.r ++ b.r), w))
               ELSE IF rel.pos = "int-tangent" THEN VAdd(a.c, VMul(a.r // (a.r -- b.r), w)) ELSE a.c
         one == Mu(<<vPt(tp), vPt(tp)>>)
         post(r) == PostLin(Ev("x.cc", <<a, b>>, r))
     IN CASE rel.pos \in {"outside", "inside"} -> post(none) = {} /\ post(one) # {}
          [] rel.pos \in {"ext-tangent", "int-tangent"} -> post(one) = {} /\ post(none) # {}
          [] rel.pos = "equal" -> post(Mu(<<a, a>>)) = {} /\ post(none) # {}
          [] rel.pos = "cross" -> post(none) # {} /\ post(one) # {}

\* orthogonal circles inside a, from two rational points
UPts == {<<RFrac(3, 5), RFrac(4, 5)>>, <<R0, RNeg(R1)>>, <<RFrac(-5, 13), RFrac(12, 13)>>, <<R1, R0>>}
\* the circle through two points of a at right angles to a
OrthOnLaw ==
  depth = 0 => \A u \in UPts, v \in UPts : RZero(Cross(u, v)) \/
    LET k == R1 ++ Dot(u, v)
        o == VAdd(a.c, VMul(a.r // k, VAdd(u, v)))
        s == a.r ** (RAbs(Cross(u, v)) // k)
        an(w) == [t |-> "ang", c |-> w[1], s |-> w[2]]
        post(c, r) == PostCirc(Ev("orth.on", <<a, an(u), an(v), B(FALSE)>>, C(c, r)))
    IN /\ D2(o, a.c) = RSq(a.r) ++ RSq(s) /\ RSq(s) = D2(o, VAdd(a.c, VMul(a.r, u)))
       /\ post(o, s) = {} /\ post(o, s ++ RFrac(1, 100)) # {}
       /\ post(VAdd(o, VMul(RFrac(1, 50), Perp(VSub(o, a.c)))), s) # {}
Qs == {RHalf, RFrac(4, 5), RFrac(1, 4)}
Out ==
  IF ~Scenarios \/ depth # 0 THEN TRUE
  ELSE LET first == l = Ln(IPt(1, -2), IPt(1, 3))  q0 == p = IPt(3, 4) IN
  /\ (first /\ q0) =>
       /\ Emit("x.cc", <<a, b>>) /\ Emit("rad2", <<a, b>>) /\ Emit("orthq", <<a, b>>) /\ Emit("cangle", <<a, b>>)
       /\ Emit("circ.eq", <<a, b>>) /\ (a.c # b.c => Emit("rad3", <<a, b, Third>>))
       /\ (a.c # b.c => Emit("circAB", <<vPt(a.c), vPt(b.c)>>) /\ Emit("circOA", <<vPt(a.c), vPt(b.c)>>))
  /\ q0 => Emit("x.cl", <<a, l>>) /\ Emit("x.cl", <<b, l>>)
  /\ first => Emit("mem", <<a, vPt(p)>>) /\ Emit("power", <<b, vPt(p)>>)
  /\ (first /\ q0 /\ b.c = IPt(1, 0) /\ b.r = R1) =>
       \A u \in UPts, v \in UPts, s \in Qs, t \in Qs \cup {R1} : \A arc \in BOOLEAN :
         Emit("orth.in", <<a, vPt(VAdd(a.c, VMul(s ** a.r, u))), vPt(VAdd(a.c, VMul(t ** a.r, v))), vBool(arc)>>)
  /\ (first /\ q0 /\ b.c = IPt(1, 0) /\ b.r = R1) =>
       \A i \in 0..11, j \in 0..11 : \A arc \in BOOLEAN : i = j \/ Emit("orth.on", <<a, vAngD(30 * i), vAngD(30 * j), vBool(arc)>>)
=============================================================================
