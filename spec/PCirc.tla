-------------------------------- MODULE PCirc --------------------------------
(* Circles: P13 power, radical objects, angles, membership; P14 orthogonal *)
(* circles and arcs.                                                       *)
EXTENDS PLin

\* ---- the model ------------------------------------------------------------
Pow(c, p) == D2(p, c.c) -- RSq(c.r)
\* the radical axis as a generalized circle (a line)
RadG(c, d) == LET G == GFig(c)  H == GFig(d) IN <<R0, G[2] -- H[2], G[3] -- H[3], G[4] -- H[4]>>
RadPt(c, d) == LET v == VSub(d.c, c.c) IN
  VAdd(Mid(c.c, d.c), VMul((RSq(c.r) -- RSq(d.r)) // (R2 ** N2(v)), v))
RadPt3(c, d, e) ==       \* Cramer
  LET G == RadG(c, d)  H == RadG(c, e)  D == Cross(GB(G), GB(H))
  IN <<((G[3] ** H[4]) -- (G[4] ** H[3])) // D, ((G[4] ** H[2]) -- (G[2] ** H[4])) // D>>
CosAngle(c, d) == (D2(c.c, d.c) -- RSq(c.r) -- RSq(d.r)) // (R2 ** (c.r ** d.r))

CMag(c) == Mag(c.c) ++ c.r
PostPower(e) == LET c == e.a[1]  p == e.a[2].v  m == RSq(Mag(p) ++ CMag(c)) IN
  Chk(e.r.t = "num" /\ Near(e.r.v, Pow(c, p), m), "power")
Concentric(c, d) == Mag(VSub(c.c, d.c)) \preceq (T6 ** RMax(CMag(c), CMag(d)))
\* rad2 : c, d -> << radical centre, radical axis >>
PostRad2(e) ==
  LET c == e.a[1]  d == e.a[2]  r == e.r.v  m0 == RMax(CMag(c), CMag(d))
      dm == Mag(VSub(c.c, d.c))
  IN IF c.c = d.c THEN Chk(r[1].t # "pt" /\ r[2].t = "none", "no-axis-of-concentric-circles")
     ELSE IF Concentric(c, d) THEN SKIP("nearly concentric")
     ELSE LET Q == RadPt(c, d)  m == m0 ** RSq(R1 ++ (m0 // dm)) IN
          Chk(r[1].t = "pt" /\ NearP(r[1].v, Q, m), "radical-centre-of-two")
          \cup Chk(r[2].t = "line" /\ MatchLine(r[2], RadG(c, d), m, T6), "radical-axis-equal-power")
          \cup (IF r[2].t = "line" THEN Chk(Whole(r[2]), "whole-line") ELSE {})
PostRad3(e) ==
  LET c == e.a[1]  d == e.a[2]  f == e.a[3]  r == e.r
      v == VSub(d.c, c.c)  w == VSub(f.c, c.c)
      m == RMax(CMag(c), RMax(CMag(d), CMag(f)))
  IN IF CZero(v) \/ CZero(w) THEN SKIP("concentric")
     ELSE IF Sin2(v, w) \preceq RSq(RFrac(1, 50)) \/ Mag(v) \preceq (RFrac(1, 50) ** m) \/ Mag(w) \preceq (RFrac(1, 50) ** m)
     THEN SKIP("nearly collinear centres")
     ELSE IF r.t # "pt" THEN {"no-radical-centre"}
     ELSE LET s == RSq(RMax(m, Mag(r.v))) ** RInt(1000)
          IN Chk(Near(Pow(c, r.v), Pow(d, r.v), s) /\ Near(Pow(c, r.v), Pow(f, r.v), s), "equal-powers")
\* decided with a zone of width Tol5 around equality (relative to s)
\* near: no precision is lost in the coordinates, so that x = 0 up to rounding decides
Decide(r, x, s, exact, pos, near, name) ==   \* r = (x = 0) or (x <= 0)
  IF r.t # "bool" THEN {name}
  ELSE IF (exact /\ RZero(x)) \/ (~pos /\ RAbs(x) \preceq (Eps11 ** RFrac(1, 2) ** s) /\ near) THEN Chk(r.v, name)
  ELSE IF RAbs(x) \preceq (T4 ** s) THEN SKIP("borderline")
  ELSE Chk(r.v = (pos /\ RNegv(x)), name)
PostOrthQ(e) ==
  LET c == e.a[1]  d == e.a[2]  x == D2(c.c, d.c) -- RSq(c.r) -- RSq(d.r)
      s == RSq(c.r) ++ RSq(d.r)
  IN Decide(e.r, x, s, TRUE, FALSE, RMax(N2(c.c), N2(d.c)) \preceq (RInt(10000) ** s), "orthogonal-iff-pythagoras")
PostAngle(e) ==
  LET c == e.a[1]  d == e.a[2]  r == e.r  k == CosAngle(c, d)
      m == RScale(R1, RMax(CMag(c), CMag(d)))
      cond == RSq(m) // (c.r ** d.r)
      x == RSq(c.r ++ d.r) -- D2(c.c, d.c)   y == D2(c.c, d.c) -- RSq(c.r -- d.r)
      bad(z) == ~RZero(z) /\ RAbs(z) \preceq (Tol5 ** RSq(c.r ++ d.r))
      off(z) == RNegv(z)
  IN IF bad(x) \/ bad(y) THEN SKIP("nearly tangent")
     ELSE IF off(x) \/ off(y) THEN Chk(r.t = "none", "no-angle-unless-meeting")
     ELSE IF (RZero(x) \/ RZero(y)) /\ ~(DyadicP(c.c) /\ DyadicP(d.c) /\ Dyadic(c.r) /\ Dyadic(d.r)) THEN SKIP("inexactly tangent")
     ELSE IF r.t # "ang" THEN {"angle"}
     ELSE Chk(Near(r.c, k, cond ** RInt(10)), "cosine-of-angle")
          \cup Chk(R0 \preceq r.v /\ r.v \preceq RFrac(355, 113) /\ RNeg(Tol) \preceq r.s, "angle-in-range")
\* mem : circle, point -> << includes, contains >>
PostMem(e) ==
  LET c == e.a[1]  p == e.a[2].v  r == e.r.v  x == Pow(c, p)
      ex == DyadicP(c.c) /\ Dyadic(c.r) /\ DyadicP(p)
      s == RSq(c.r)
      A == Decide(r[1], x, s, TRUE, FALSE, N2(c.c) \preceq (RInt(10000) ** s), "includes-iff-on-circle")
      B == Decide(r[2], x, s, ex, TRUE, FALSE, "contains-iff-inside")
  IN (IF IsSkipSet(A) THEN {} ELSE A) \cup (IF IsSkipSet(B) THEN {} ELSE B)
     \cup (IF IsSkipSet(A) /\ IsSkipSet(B) THEN SKIP("borderline") ELSE {})
PostCircAB(e) ==
  LET A == e.a[1].v  B == e.a[2].v  r == e.r  m == RMax(Mag(A), Mag(B)) IN
  Chk(r.t = "circle" /\ NearP(r.c, Mid(A, B), m) /\ IsDist(R2 ** r.r, A, B, m), "circle-on-diameter")
PostCircOA(e) ==
  LET O == e.a[1].v  A == e.a[2].v  r == e.r  m == RMax(Mag(A), Mag(O)) IN
  Chk(r.t = "circle" /\ NearP(r.c, O, m) /\ IsDist(r.r, O, A, m), "circle-centre-through-point")
PostCircEq(e) ==
  LET c == e.a[1]  d == e.a[2]  r == e.r  m == RMax(CMag(c), CMag(d))
      x == RMax(Mag(VSub(c.c, d.c)), RAbs(c.r -- d.r))
  IN IF r.t # "bool" THEN {"equal"}
     ELSE IF x \preceq (Eps11 ** RMin(R1, RMin(c.r, d.r))) THEN Chk(r.v, "equal")
     ELSE IF x \preceq (T6 ** m) THEN SKIP("borderline") ELSE Chk(~r.v, "equal")

\* ---- P14 ------------------------------------------------------------------
\* a full circle or an arc c meets the circle f at right angles
OrthoTo(f, o, s, m) == NearT(D2(o, f.c), RSq(f.r) ++ RSq(s), RSq(m), T6)
Thru(o, s, p, m) == IsSqrt(s, D2(o, p), T6 ** m)
\* the arc joins p and q (in either order), and is the one inside the circle f
ArcJoins(r, f, p, q, m) ==
  LET u == <<r.a1.c, r.a1.s>>  w == <<r.a2.c, r.a2.s>>
      S == VAdd(r.c, VMul(r.r, u))  E == VAdd(r.c, VMul(r.r, w))
  IN /\ \/ NearPT(S, p, m, T6) /\ NearPT(E, q, m, T6)
        \/ NearPT(S, q, m, T6) /\ NearPT(E, p, m, T6)
ArcInside(r, f) ==
  LET u == <<r.a1.c, r.a1.s>>  w == <<r.a2.c, r.a2.s>>
  IN RPos(Cross(u, w)) /\ RPos(Dot(VAdd(u, w), VSub(f.c, r.c)))
OrthResult(r, f, p, q, arc, line) ==
  IF line THEN
    IF r.t # "line" THEN {"diameter-line"}
    ELSE LET m == Mag(f.c) ++ f.r IN
         Chk(DL2(r, f.c) \preceq RSq(T6 ** m) /\ DL2(r, p) \preceq RSq(T6 ** m) /\ DL2(r, q) \preceq RSq(T6 ** m), "diameter-line")
         \cup Chk(r.ea = ~arc /\ r.eb = ~arc, "segment-iff-arc")
         \cup (IF arc THEN Chk((NearPT(r.A, p, m, T6) /\ NearPT(r.B, q, m, T6)) \/ (NearPT(r.A, q, m, T6) /\ NearPT(r.B, p, m, T6)), "joins-points") ELSE {})
  ELSE IF r.t # (IF arc THEN "arc" ELSE "circle") THEN {"circle-or-arc"}
  ELSE LET m == Mag(f.c) ++ f.r ++ r.r ++ Mag(r.c) IN
       Chk(OrthoTo(f, r.c, r.r, m), "orthogonal")
       \cup Chk(Thru(r.c, r.r, p, m) /\ Thru(r.c, r.r, q, m), "through-points")
       \cup (IF arc THEN Chk(ArcJoins(r, f, p, q, m), "joins-points") \cup Chk(ArcInside(r, f), "inside") ELSE {})
\* orth.on : circle, angle1, angle2, arc
PostOrthOn(e) ==
  LET f == e.a[1]  x == e.a[2]  y == e.a[3]  arc == e.a[4].v
      u == <<x.c, x.s>>  w == <<y.c, y.s>>  cr == RAbs(Cross(u, w))
  IN IF RPos(Dot(u, w)) /\ cr \preceq RFrac(1, 20000) THEN SKIP("nearly equal angles")
     ELSE IF cr \preceq (Eps10 ** RInt(10)) THEN OrthResult(e.r, f, VAdd(f.c, VMul(f.r, u)), VAdd(f.c, VMul(f.r, w)), arc, TRUE)
     ELSE IF cr \preceq RFrac(1, 20000) THEN SKIP("nearly opposite angles")
     ELSE OrthResult(e.r, f, VAdd(f.c, VMul(f.r, u)), VAdd(f.c, VMul(f.r, w)), arc, FALSE)
\* orth.in : circle, P1, P2, arc
PostOrthIn(e) ==
  LET f == e.a[1]  p == e.a[2].v  q == e.a[3].v  arc == e.a[4].v  r == e.r
      v == VSub(p, f.c)  w == VSub(q, f.c)
      s2 == RSq(f.r)
      gone(x) == s2 \preceq N2(x) /\ ((DyadicP(f.c) /\ Dyadic(f.r) /\ DyadicP(p) /\ DyadicP(q)) \/ ((R1 ++ T4) ** s2) \preceq N2(x))
      edge(x) == RAbs(N2(x) -- s2) \preceq (RFrac(1, 5000) ** s2)
      tiny(x) == ~CZero(x) /\ N2(x) \preceq (T4 ** s2)
  IN IF p = q THEN Chk(r.t = "raise", "coincident-points-refused")
     ELSE IF gone(v) \/ gone(w) THEN Chk(r.t = "raise", "outside-points-refused")
     ELSE IF edge(v) \/ edge(w) \/ tiny(v) \/ tiny(w) \/ D2(p, q) \preceq (T4 ** s2) THEN SKIP("near the limit")
     ELSE IF CZero(v) \/ CZero(w) \/ Zone2(Sin2(v, w)) = "zero" THEN
       OrthResult(r, f, p, q, arc, TRUE)
     ELSE IF Sin2(v, w) \preceq T6 THEN SKIP("nearly in line with the centre")
     ELSE OrthResult(r, f, p, q, arc, FALSE)

PCircOps == {"power", "rad2", "rad3", "orthq", "cangle", "mem", "circAB", "circOA", "circ.eq", "orth.on", "orth.in"}
PostCirc(e) ==
  CASE e.op = "power" -> PostPower(e)
    [] e.op = "rad2" -> PostRad2(e)
    [] e.op = "rad3" -> PostRad3(e)
    [] e.op = "orthq" -> PostOrthQ(e)
    [] e.op = "cangle" -> PostAngle(e)
    [] e.op = "mem" -> PostMem(e)
    [] e.op = "circAB" -> PostCircAB(e)
    [] e.op = "circOA" -> PostCircOA(e)
    [] e.op = "circ.eq" -> PostCircEq(e)
    [] e.op = "orth.on" -> PostOrthOn(e)
    [] e.op = "orth.in" -> PostOrthIn(e)
=============================================================================
