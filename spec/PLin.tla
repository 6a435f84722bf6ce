-------------------------------- MODULE PLin --------------------------------
(* Lines: P10 descriptions and predicates, P11 feet and motions,           *)
(* P12 intersections.                                                      *)
EXTENDS PAff


\* ---- the model ------------------------------------------------------------
Dir(l) == VSub(l.B, l.A)
Foot(l, p) == VAdd(l.A, VMul(Dot(VSub(p, l.A), Dir(l)) // N2(Dir(l)), Dir(l)))
OnLine(l, p) == RZero(Cross(Dir(l), VSub(p, l.A)))
Param(l, p) == Dot(VSub(p, l.A), Dir(l)) // N2(Dir(l))
SameLine(l, h) == OnLine(l, h.A) /\ OnLine(l, h.B)
ParLines(l, h) == RZero(Cross(Dir(l), Dir(h)))
OrthLines(l, h) == RZero(Dot(Dir(l), Dir(h)))
\* the point set the extents describe
InExtent(l, p) == LET t == Param(l, p) IN OnLine(l, p) /\ (l.ea \/ R0 \preceq t) /\ (l.eb \/ t \preceq R1)
MeetLines(l, h) ==       \* for non-parallel lines
  VAdd(l.A, VMul(Cross(VSub(h.A, l.A), Dir(h)) // Cross(Dir(l), Dir(h)), Dir(l)))

\* ---- three-valued tests with a zone of indecision ------------------------
\* x is a non-negative rational already made relative
Zone(x) == IF x \preceq Eps11 THEN "zero" ELSE IF x \preceq Tol5 THEN "unsure" ELSE "positive"
\* squared sine of the angle of two vectors, squared cosine
Sin2(v, w) == RSq(Cross(v, w)) // (N2(v) ** N2(w))
Cos2(v, w) == RSq(Dot(v, w)) // (N2(v) ** N2(w))
Eps22 == RSq(Eps11)
Zone2(x) == IF x \preceq Eps22 THEN "zero" ELSE IF x \preceq RSq(Tol5) THEN "unsure" ELSE "positive"
\* squared distance of a point to a line
DL2(l, p) == RSq(Cross(Dir(l), VSub(p, l.A))) // N2(Dir(l))
LinesEq(l, h) ==
  LET m == RScale(R1, MagAll(<<l.A, l.B, h.A, h.B>>))
      d == RMax(DL2(l, h.A), DL2(l, h.B))
      s == Zone2(Sin2(Dir(l), Dir(h)))
  IN IF s = "positive" THEN "no"
     ELSE IF d \preceq (Eps22 ** RSq(m)) /\ s = "zero" THEN "yes"
     ELSE IF RSq(T6 ** m) \preceq RMin(DL2(l, h.A), DL2(l, h.B)) THEN "no" ELSE "unsure"
Judge(r, z, yes, no, name) ==          \* r a recorded Boolean
  IF r.t # "bool" THEN {name}
  ELSE IF z = yes THEN Chk(r.v, name) ELSE IF z = no THEN Chk(~r.v, name) ELSE SKIP("borderline")

\* ---- P10 ------------------------------------------------------------------
PostDO(e) ==
  LET l == e.a[1]  r == e.r.v  m == RScale(R1, MagAll(<<l.A, l.B>>)) IN
  IF r[1].t # "ang" \/ r[2].t # "num" THEN {"direction-and-offset"}
  ELSE LET h(p) == (r[1].c ** p[1]) ++ (r[1].s ** p[2]) IN
       Chk(Near(h(l.A), r[2].v, m) /\ Near(h(l.B), r[2].v, m), "points-satisfy-equation")
            \cup Chk(~RNegv(r[2].v), "nonnegative-offset")
PostLineEq(e) == Judge(e.r, LinesEq(e.a[1], e.a[2]), "yes", "no", "equal-iff-same-set")
Len2Max(l, h) == RMax(N2(Dir(l)), N2(Dir(h)))
PostPar(e) ==
  LET v == Dir(e.a[1])  w == Dir(e.a[2])  z == Zone2(Sin2(v, w))
  IN Judge(e.r, z, "zero", "positive", "parallel-iff-same-direction")
PostPerpQ(e) ==
  LET v == Dir(e.a[1])  w == Dir(e.a[2])  z == Zone2(Cos2(v, w))
  IN Judge(e.r, z, "zero", "positive", "perpendicular-iff-orthogonal")
\* line.inc : line, M, strict -> << answer, answer without the check of collinearity (strict) or with the explicit defaults >>
PostInc(e) ==
  LET l == e.a[1]  p == e.a[2].v  strict == e.a[3].v  r == e.r.v[1]  q == e.r.v[2]
      m == RScale(R1, MagAll(<<l.A, l.B, p>>))
      onend == p = l.A \/ p = l.B
      nearend == RMin(D2(p, l.A), D2(p, l.B)) \preceq RSq(T6 ** m)
      z == IF onend THEN "zero" ELSE Zone2(Sin2(Dir(l), VSub(p, l.A)))
      t == Param(l, p)
      clear(x) == Tol5 \preceq RAbs(x)
      inside == (l.ea \/ R0 \preceq t) /\ (l.eb \/ t \preceq R1)
      exact == OnLine(l, p) /\ DyadicP(l.A) /\ DyadicP(l.B) /\ DyadicP(p)
      decided == onend \/ exact \/ ((l.ea \/ clear(t)) /\ (l.eb \/ clear(t -- R1)))
      name == IF strict THEN "included-in-extent" ELSE "included-iff-collinear"
  IN IF r.t # "bool" THEN {name}
     ELSE IF q.t # "bool" \/ ((~strict \/ r.v) /\ q.v # r.v) THEN {"same-without-check"}
     ELSE IF nearend /\ ~onend THEN SKIP("next to a defining point")
     ELSE IF z = "unsure" THEN SKIP("borderline")
     ELSE IF z = "positive" THEN Chk(~r.v, name)
     ELSE IF ~strict THEN Chk(r.v, name)
     ELSE IF ~decided THEN SKIP("borderline extent")
     ELSE Chk(r.v = inside, name) \cup Chk(q.v = inside, "unchecked-extent")

\* ---- P11 ------------------------------------------------------------------
OffLine(l, p, m) == LET d == DL2(l, p) IN IF d \preceq (Eps22 ** RSq(m)) THEN "on" ELSE IF d \preceq RSq(T6 ** m) THEN "unsure" ELSE "off"
\* line.perp : line, M, extendH, extendM
PostPerp(e) ==
  LET l == e.a[1]  p == e.a[2].v  r == e.r
      m == RScale(R1, MagAll(<<l.A, l.B, p>>))
      \* rounding of the foot when the defining points are close together
      mm == m ** (R1 ++ (m // Mag(Dir(l))))
      z == OffLine(l, p, m)
  IN IF r.t # "line" THEN {"not-a-line"}
     ELSE IF z = "unsure" THEN SKIP("point close to the line")
     ELSE Chk(DL2(r, p) \preceq RSq(Tol ** mm), "passes-through-point")
          \cup Chk(Cos2(Dir(r), Dir(l)) \preceq RSq(T4), "right-angle")
          \cup (IF z = "off" THEN Chk(NearP(r.A, Foot(l, p), mm) /\ NearP(r.B, p, m), "from-foot-to-point")
                                  \cup Chk(r.ea = e.a[3].v /\ r.eb = e.a[4].v, "requested-extents")
                ELSE {})
\* line.proj : line, M -> << projection, distance, reflection >>
PostProj(e) ==
  LET l == e.a[1]  p == e.a[2].v  r == e.r.v
      m == RScale(R1, MagAll(<<l.A, l.B, p>>))
      mm == m ** (R1 ++ (m // Mag(Dir(l))))
      f == Foot(l, p)
  IN Chk(r[1].t = "pt" /\ NearP(r[1].v, f, mm), "projection-is-foot")
     \cup Chk(r[2].t = "num" /\ IsDist(r[2].v, p, f, mm), "distance-to-foot")
     \cup Chk(r[3].t = "pt" /\ NearP(r[3].v, VSub(VMul(R2, f), p), R2 ** mm), "reflection")
PostLineRot(e) ==
  LET l == e.a[1]  th == e.a[2]  o == e.a[3].v
  IN LineImage(e.r, RotMap(o, th.c, th.s), l, R4 ** RScale(R1, MagAll(<<l.A, l.B, o>>)))
PostLineTrans(e) ==
  LET l == e.a[1]  v == e.a[2].v IN LineImage(e.r, IdTrans(v), l, R2 ** RScale(R1, MagAll(<<l.A, l.B, v>>)))

\* ---- P12 ------------------------------------------------------------------
Agree(ok(_), rs) == \A i \in 1..Len(rs) : ok(rs[i])
PostLL(e) ==
  LET l == e.a[1]  h == e.a[2]  rs == e.r.v
      eq == LinesEq(l, h)  z == Zone2(Sin2(Dir(l), Dir(h)))
      m == RScale(R1, MagAll(<<l.A, l.B, h.A, h.B>>))
      small == RSq(Cross(Dir(l), Dir(h))) \preceq RSq(Tol5)
      s2 == Sin2(Dir(l), Dir(h))
      dl == RMin(Mag(Dir(l)), Mag(Dir(h)))
  IN IF eq = "unsure" \/ z = "unsure" \/ (z = "positive" /\ (small \/ s2 \preceq RSq(TR))) THEN SKIP("borderline")
     ELSE IF eq = "yes" THEN Chk(Agree(LAMBDA r : r.t = "line" /\ LinesEq(r, l) = "yes", rs), "equal-lines")
     ELSE IF z = "zero" THEN Chk(Agree(LAMBDA r : r.t = "none", rs), "parallel-lines")
     ELSE LET I == MeetLines(l, h)
              mm == RMax(m, Mag(I)) ** (R1 ++ (m // dl)) ** RInt(1000)
          IN Chk(Agree(LAMBDA r : r.t = "pt" /\ NearP(r.v, I, mm), rs), "common-point")
\* a pair of distinct points, each satisfying on(p), at the squared distance c2
TwoPts(r, on(_), c2) ==
  /\ r.t = "list" /\ Len(r.v) = 2
  /\ r.v[1].t = "pt" /\ r.v[2].t = "pt"
  /\ on(r.v[1].v) /\ on(r.v[2].v)
  /\ NearT(D2(r.v[1].v, r.v[2].v), c2, c2, TR)
OnePt(r, on(_)) == r.t = "pt" /\ on(r.v)
Zone0(x) == IF RAbs(x) \preceq Eps10 THEN "touch" ELSE IF RAbs(x) \preceq Tol5 THEN "unsure"
            ELSE IF RPos(x) THEN "cross" ELSE "apart"
Verdict(z, rs, on(_), c2) ==
  CASE z = "unsure" -> SKIP("nearly tangent")
    [] z = "apart" -> Chk(Agree(LAMBDA r : r.t = "none", rs), "disjoint-gives-nothing")
    [] z = "touch" -> Chk(Agree(LAMBDA r : OnePt(r, on), rs), "tangent-gives-one-point")
    [] z = "cross" -> Chk(Agree(LAMBDA r : TwoPts(r, on, c2), rs), "two-common-points")
\* x.cl : circle, line;   x.el : ellipse, line
EllQuad(f, l) ==        \* 1 - (distance of the line to the centre in the units of the ellipse)^2, and the chord
  LET v == Dir(l)
      p == VSub(l.A, f.c)
      u == IF f.t = "circle" THEN C1 ELSE f.u
      a2 == IF f.t = "circle" THEN RSq(f.r) ELSE RSq(f.a)
      b2 == IF f.t = "circle" THEN RSq(f.r) ELSE RSq(f.b)
      n == N2(u)
      q(x, y) == ((Dot(x, u) ** Dot(y, u)) // (a2 ** n)) ++ ((Cross(u, x) ** Cross(u, y)) // (b2 ** n))
      al == q(v, v)  be == q(p, v)  ga == q(p, p)
      rel == (R1 -- ga) ++ (RSq(be) // al)
  IN <<rel, ((R4 ** rel) // al) ** N2(v)>>
EllR(f) == IF f.t = "circle" THEN f.r ELSE f.b
PostCL(e) ==
  LET f == e.a[1]  l == e.a[2]  rs == e.r.v
      k == EllQuad(f, l)
      m == RScale(R1, RMax(FigSize(f), MagAll(<<l.A, l.B>>)))
      mm == m ** (R1 ++ (m // Mag(Dir(l))))
      flat == R1 ++ (m // EllR(f))
      on(p) == /\ RAbs(EllLevel(f, p) -- R1) \preceq (Tol5 ** RSq(flat))
               /\ DL2(l, p) \preceq RSq(Tol5 ** mm)
  IN IF RInt(10000) \prec (m // Mag(Dir(l))) THEN SKIP("defining points close together")
     ELSE Verdict(Zone0(k[1]), rs, on, k[2])
\* x.cc
PostCC(e) ==
  LET f == e.a[1]  g == e.a[2]  rs == e.r.v
      d2 == D2(f.c, g.c)  s2 == RSq(f.r ++ g.r)  t2 == RSq(f.r -- g.r)
      m == RScale(R1, RMax(FigSize(f), FigSize(g)))
      same == f.c = g.c /\ f.r = g.r
      nearsame == Mag(VSub(f.c, g.c)) \preceq (T4 ** m) /\ RAbs(f.r -- g.r) \preceq (T4 ** m)
      \* relative signed margins: positive inside the crossing range
      xo == (s2 -- d2) // s2   xi == (d2 -- t2) // s2
      z == IF Zone0(xo) = "unsure" \/ Zone0(xi) = "unsure" THEN "unsure"
           ELSE IF Zone0(xo) = "apart" \/ Zone0(xi) = "apart" THEN "apart"
           ELSE IF Zone0(xo) = "touch" \/ Zone0(xi) = "touch" THEN "touch" ELSE "cross"
      on(p) == /\ IsSqrt(f.r, D2(p, f.c), (IF z = "touch" THEN T4 ELSE Tol5) ** m)
               /\ IsSqrt(g.r, D2(p, g.c), (IF z = "touch" THEN T4 ELSE Tol5) ** m)
      c2 == ((s2 -- d2) ** (d2 -- t2)) // d2
  IN IF same THEN Chk(Agree(LAMBDA r : r.t = "circle" /\ NearP(r.c, f.c, m) /\ Near(r.r, f.r, m), rs), "equal-gives-the-circle")
     ELSE IF nearsame THEN SKIP("nearly equal circles")
     ELSE Verdict(z, rs, on, c2)

PLinOps == {"line.do", "line.eq", "line.par", "line.perpq", "line.inc", "line.perp", "line.proj",
            "line.rot", "line.trans", "x.ll", "x.cl", "x.el", "x.cc"}
PostLin(e) ==
  CASE e.op = "line.do" -> PostDO(e)
    [] e.op = "line.eq" -> PostLineEq(e)
    [] e.op = "line.par" -> PostPar(e)
    [] e.op = "line.perpq" -> PostPerpQ(e)
    [] e.op = "line.inc" -> PostInc(e)
    [] e.op = "line.perp" -> PostPerp(e)
    [] e.op = "line.proj" -> PostProj(e)
    [] e.op = "line.rot" -> PostLineRot(e)
    [] e.op = "line.trans" -> PostLineTrans(e)
    [] e.op = "x.ll" -> PostLL(e)
    [] e.op \in {"x.cl", "x.el"} -> PostCL(e)
    [] e.op = "x.cc" -> PostCC(e)
=============================================================================
