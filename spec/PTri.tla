-------------------------------- MODULE PTri --------------------------------
(* Triangles: P18 attached circles and ellipses, P19 measurements.         *)
EXTENDS PEll

\* ---- the model ------------------------------------------------------------
TV(t) == <<t.A, t.B, t.C>>
TSize(t) == LET V == TV(t) IN RMaxSeq(<<Mag(VSub(V[1], V[2])), Mag(VSub(V[2], V[3])), Mag(VSub(V[3], V[1]))>>)
TMag(t) == MagAll(TV(t)) ++ TSize(t)
\* the scale of the answers: the size of the triangle; the distance to the origin only counts through rounding
TM(t) == TSize(t) ++ (MagAll(TV(t)) // RInt(1000))
T2Area(t) == Area2(t.A, t.B, t.C)
FlatTri(t) == RAbs(T2Area(t)) \preceq (RFrac(1, 500) ** RSq(TSize(t)))
Thin(t) == RAbs(T2Area(t)) \preceq (RFrac(1, 3000) ** RSq(TSize(t)))
DyadicT(t) == DyadicP(t.A) /\ DyadicP(t.B) /\ DyadicP(t.C)
Seg(P, Q) == [t |-> "line", A |-> P, B |-> Q, ea |-> TRUE, eb |-> TRUE]
\* the side opposite to vertex i
Side(t, i) == LET V == TV(t) IN Seg(V[(i % 3) + 1], V[((i + 1) % 3) + 1])
\* p and q strictly on the same side of the line l
SameSide(l, p, q) == RPos(Cross(Dir(l), VSub(p, l.A)) ** Cross(Dir(l), VSub(q, l.A)))
OtherSide(l, p, q) == RNegv(Cross(Dir(l), VSub(p, l.A)) ** Cross(Dir(l), VSub(q, l.A)))
InTriangle(t, p) == \A i \in 1..3 : SameSide(Side(t, i), p, TV(t)[i])
TangentTo(c, l, m) == IsSqrt(c.r, DL2(l, c.c), T6 ** m)
\* barycentric coordinates
Bary(t, p) == LET d == T2Area(t) IN <<Area2(p, t.B, t.C) // d, Area2(t.A, p, t.C) // d, Area2(t.A, t.B, p) // d>>
SteinerCov(t) ==
  LET g == Centroid(TV(t))  d == [i \in 1..3 |-> VSub(TV(t)[i], g)]  k == RFrac(2, 3)
  IN <<k ** RSumSeq([i \in 1..3 |-> RSq(d[i][1])]), k ** RSumSeq([i \in 1..3 |-> d[i][1] ** d[i][2]]), k ** RSumSeq([i \in 1..3 |-> RSq(d[i][2])])>>
CMM(t, c) == TM(t) ++ Mag(VSub(c.c, t.A)) ++ c.r
IsCirc(r) == r.t = "circle" /\ RPos(r.r)

\* ---- P18 ------------------------------------------------------------------
IfTri(e, flat, S) ==     \* flat: the outcome demanded for exactly flat triangles
  LET t == e.a[1] IN
  IF Thin(t) THEN
    IF RZero(T2Area(t)) /\ DyadicT(t) /\ flat # "any" THEN Chk(e.r.t = flat, "flat-gives-nothing") ELSE SKIP("nearly flat triangle")
  ELSE S
Incircle(t, c) ==
  IF ~IsCirc(c) THEN {"incircle"}
  ELSE Chk(InTriangle(t, c.c), "incircle-inside") \cup Chk(\A i \in 1..3 : TangentTo(c, Side(t, i), CMM(t, c)), "incircle-tangent-to-the-sides")
PostTIn(e) == IfTri(e, "any", Incircle(e.a[1], e.r))
Circum(t, c) ==
  IF ~IsCirc(c) THEN {"circumcircle"}
  ELSE Chk(\A i \in 1..3 : IsDist(c.r, c.c, TV(t)[i], RInt(10) ** CMM(t, c)), "circumcircle-through-the-vertices")
PostTCircum(e) == IfTri(e, "none", Circum(e.a[1], e.r))
Excircle(t, c, i) ==
  IF ~IsCirc(c) THEN {"excircle"}
  ELSE Chk(\A j \in 1..3 : TangentTo(c, Side(t, j), CMM(t, c)), "excircle-tangent-to-the-side-lines")
       \cup Chk(OtherSide(Side(t, i), c.c, TV(t)[i]) /\ \A j \in (1..3) \ {i} : SameSide(Side(t, j), c.c, TV(t)[j]), "excircle-beyond-its-side")
IsDict(r, K) == r.t = "dict" /\ DOMAIN r.v = K
PostTEx(e) ==
  LET t == e.a[1]  r == e.r IN
  IfTri(e, "any", IF ~IsDict(r, {"A", "B", "C"}) THEN {"three-excircles"}
                  ELSE Excircle(t, r.v["A"], 1) \cup Excircle(t, r.v["B"], 2) \cup Excircle(t, r.v["C"], 3))
Touch(c, d, m) == IsSqrt(c.r ++ d.r, D2(c.c, d.c), T6 ** m)
\* the point dividing the centres in the ratio of the radii
Contact(c, d) == LET s == c.r ++ d.r IN VAdd(VMul(d.r // s, c.c), VMul(c.r // s, d.c))
Malfatti(t, c, T) ==     \* circles and tangency points, by vertex
  IF \E i \in 1..3 : ~IsCirc(c[i]) \/ T[i].t # "pt" THEN {"three-circles-and-points"}
  ELSE LET m == TM(t)
           far(i) == (RSq(c[i].r) ** RFrac(999, 1000)) \preceq DL2(Side(t, i), c[i].c)
       IN Chk(\A i \in 1..3 : InTriangle(t, c[i].c) /\ far(i), "malfatti-inside")
          \cup Chk(\A i \in 1..3 : \A j \in (1..3) \ {i} : TangentTo(c[i], Side(t, j), m), "malfatti-tangent-to-the-sides-at-its-vertex")
          \cup Chk(\A i, j \in 1..3 : i < j => Touch(c[i], c[j], m), "malfatti-mutually-tangent")
          \cup Chk(\A i \in 1..3 : NearPT(T[i].v, Contact(c[(i % 3) + 1], c[((i + 1) % 3) + 1]), m, T6), "tangency-point-of-the-opposite-pair")
PostTMalf(e) ==
  LET t == e.a[1]  r == e.r IN
  IfTri(e, "none",
    IF ~IsDict(r, {"circles", "tangency_points"}) THEN {"circles-and-tangency-points"}
    ELSE IF ~IsDict(r.v["circles"], {"cA", "cB", "cC"}) \/ ~IsDict(r.v["tangency_points"], {"TA", "TB", "TC"}) THEN {"circles-and-tangency-points"}
    ELSE LET c == r.v["circles"].v  T == r.v["tangency_points"].v IN
         Malfatti(t, <<c["cA"], c["cB"], c["cC"]>>, <<T["TA"], T["TB"], T["TC"]>>))
SteinerIs(t, r, k) ==
  IF ~IsEll(r) THEN {"ellipse"}
  ELSE LET S == SteinerCov(t) IN
       Chk(r.t = "ell" => (r.b \preceq (r.a ** (R1 ++ Tol))), "major-is-longer")
       \cup Chk(MatchEll(r, Centroid(TV(t)), <<k ** S[1], k ** S[2], k ** S[3]>>, TM(t), T6) /\ NearT(CovDet(Cov(r)), RSq(k) ** CovDet(S), RSq(k) ** CovDet(S), T4), "steiner-ellipse")
PostTSteiner(e) == IfTri(e, "none", SteinerIs(e.a[1], e.r, R1))
PostTInell(e) == IfTri(e, "none", SteinerIs(e.a[1], e.r, RFrac(1, 4)))

\* ---- P19 ------------------------------------------------------------------
\* tri.meas -> << a, b, c, edges, angleA, angleB, angleC, flatness, orientation, acute >>
AngleIs(r, v, w) ==
  /\ r.t = "ang"
  /\ R0 \preceq r.v /\ r.v \preceq RFrac(355, 113)
  /\ LET d == Dot(v, w)  n == N2(v) ** N2(w) IN
     RAbs((RSq(r.c) ** n) -- RSq(d)) \preceq (Tol ** n) /\ (RSq(T6) ** n \preceq RSq(d) => RSgn(r.c) = RSgn(d))
PostTMeas(e) ==
  LET t == e.a[1]  r == e.r.v  m == TM(t)
      V == TV(t)
      ends == <<<<2, 3>>, <<3, 1>>, <<1, 2>>>>
      d2 == [i \in 1..3 |-> D2(V[ends[i][1]], V[ends[i][2]])]
      len(x, i) == x.t = "num" /\ IsDist(x.v, V[ends[i][1]], V[ends[i][2]], m)
      cr == T2Area(t)
      v == VSub(V[2], V[1])  w == VSub(V[3], V[1])
      mx == RMaxSeq(d2)
      ac == (d2[1] ++ d2[2] ++ d2[3]) -- (R2 ** mx)
      zero == RZero(cr) /\ DyadicT(t)
      sure == zero \/ (Eps10 ** RSq(m)) \preceq RAbs(cr)
      proper == \A i \in 1..3 : ~RZero(d2[i])
  IN Chk(\A i \in 1..3 : len(r[i], i), "side-lengths")
     \cup Chk(IsDict(r[4], {"a", "b", "c"}), "edges")
     \cup (IF IsDict(r[4], {"a", "b", "c"}) THEN Chk(len(r[4].v["a"], 1) /\ len(r[4].v["b"], 2) /\ len(r[4].v["c"], 3), "edges") ELSE {})
     \cup (IF ~proper THEN {}
           ELSE Chk(AngleIs(r[5], v, w), "angle-A")
                \cup Chk(AngleIs(r[6], VSub(V[3], V[2]), VSub(V[1], V[2])), "angle-B")
                \cup Chk(AngleIs(r[7], VSub(V[1], V[3]), VSub(V[2], V[3])), "angle-C"))
     \cup (IF zero THEN Chk(r[8].t = "num" /\ r[8].v = R1, "flatness")
           ELSE IF RZero(d2[2]) \/ RZero(d2[3]) THEN {}
           ELSE Chk(r[8].t = "num" /\ Near(r[8].v, Cos2(v, w), R1), "flatness"))
     \cup (IF sure THEN Chk(r[9].t = "num" /\ r[9].v = RInt(RSgn(cr)), "orientation") ELSE {})
     \cup (IF RAbs(ac) \preceq (T6 ** mx) \/ Thin(t) THEN {} ELSE Chk(r[10].t = "bool" /\ r[10].v = RPos(ac), "acute"))
PostTContains(e) ==
  LET t == e.a[1]  p == e.a[2].v  r == e.r IN
  IF Thin(t) THEN SKIP("nearly flat triangle")
  ELSE IF r.t # "bool" THEN {"contains-iff-strictly-inside"}
  ELSE LET b == Bary(t, p)  lo == RMin(b[1], RMin(b[2], b[3])) IN
       IF RAbs(lo) \preceq T6 THEN SKIP("on the boundary") ELSE Chk(r.v = RPos(lo), "contains-iff-strictly-inside")
PostTOrthic(e) ==
  LET t == e.a[1]  r == e.r  V == TV(t)  m == RInt(10) ** TM(t)
      w == TV(r)
  IN IF Thin(t) THEN SKIP("nearly flat triangle")
     ELSE IF r.t # "tri" THEN {"orthic-triangle"}
     ELSE Chk(\A i \in 1..3 : NearP(w[i], Foot(Side(t, i), V[i]), m), "feet-of-altitudes-in-order")
\* tri.detour -> << point, detour, distances to A B C, side lengths >> (the last two are witnesses, verified here)
Detours(t, p, d, q, s, m) ==
  \A i \in 1..3 : RAbs((q[(i % 3) + 1] ++ q[((i + 1) % 3) + 1]) -- s[i] -- d) \preceq (T6 ** m)
PostTDetour(e) ==
  LET t == e.a[1]  r == e.r.v  V == TV(t)  m == TM(t) IN
  IF Thin(t) THEN SKIP("nearly flat triangle")
  ELSE IF r[1].t # "pt" \/ r[2].t # "num" \/ r[3].t # "vec" THEN {"point-and-detour"}
  ELSE LET q == r[3].v  s == r[4].v IN
       Chk(\A i \in 1..3 : IsDist(q[i], r[1].v, V[i], m), "witness")
       \cup Chk(\A i \in 1..3 : IsSqrt(s[i], D2(V[(i % 3) + 1], V[((i + 1) % 3) + 1]), Tol ** m), "witness")
       \cup Chk(Detours(t, r[1].v, r[2].v, q, s, m), "equal-detours")
       \cup Chk(RPos(r[2].v), "positive-detour")

PTriOps == {"tri.in", "tri.circum", "tri.ex", "tri.malf", "tri.steiner", "tri.inell", "tri.meas", "tri.contains", "tri.orthic", "tri.detour"}
PostTri(e) ==
  CASE e.op = "tri.in" -> PostTIn(e)
    [] e.op = "tri.circum" -> PostTCircum(e)
    [] e.op = "tri.ex" -> PostTEx(e)
    [] e.op = "tri.malf" -> PostTMalf(e)
    [] e.op = "tri.steiner" -> PostTSteiner(e)
    [] e.op = "tri.inell" -> PostTInell(e)
    [] e.op = "tri.meas" -> PostTMeas(e)
    [] e.op = "tri.contains" -> PostTContains(e)
    [] e.op = "tri.orthic" -> PostTOrthic(e)
    [] e.op = "tri.detour" -> PostTDetour(e)
=============================================================================
