-------------------------------- MODULE PAff --------------------------------
(* Affine maps: P07 application and group operations, P08 the named maps,  *)
(* P09 images of figures.                                                  *)
EXTENDS PMob

\* ---- the model: the exact affine map of every kind of transformation -----
AffFix(L, o) ==          \* linear part L = <<l11,l12,l21,l22>>, fixing o
  LET w == <<(L[1] ** o[1]) ++ (L[2] ** o[2]), (L[3] ** o[1]) ++ (L[4] ** o[2])>>
  IN <<L[1], L[2], L[3], L[4], o[1] -- w[1], o[2] -- w[2]>>
\* I + k * x y' / n
Rank1(k, x, y, n) == LET h == k // n IN
  <<R1 ++ (h ** x[1] ** y[1]), h ** x[1] ** y[2], h ** x[2] ** y[1], R1 ++ (h ** x[2] ** y[2])>>
ReflMap(A, B) == LET n == Perp(VSub(B, A)) IN AffFix(Rank1(RInt(-2), n, n, N2(n)), A)
\* p |-> p + k u on the line AB
ProjMap(A, B, u) == LET n == Perp(VSub(B, A)) IN AffFix(Rank1(RInt(-1), u, n, Dot(n, u)), A)
RotMap(o, c, s) == AffFix(<<c, RNeg(s), s, c>>, o)
ShearMap(o, w, k, tn) == LET wt == VMul(k, Perp(w)) IN AffFix(Rank1(tn // RSq(k), wt, w, N2(w)), o)
ScalMap(o, w, k) == AffFix(Rank1(k -- R1, w, w, N2(w)), o)
SxyMap(o, x, y) == AffFix(<<x, R0, R0, y>>, o)
HomMap(o, k) == AffFix(<<k, R0, R0, k>>, o)
IdTrans(v) == <<R1, R0, R0, R1, v[1], v[2]>>
MapOf(f) ==
  CASE f.t = "aff" -> AffOf(f)
    [] f.t = "refl" -> ReflMap(f.A, f.B)
    [] f.t = "proj" -> ProjMap(f.A, f.B, IF f.orth THEN Perp(VSub(f.B, f.A)) ELSE VSub(f.Q, f.P))
    [] f.t = "rot" -> RotMap(f.o, f.th.c, f.th.s)
    [] f.t = "shear" -> ShearMap(f.o, f.w, f.k, f.th.s // f.th.c)
    [] f.t = "scal" -> ScalMap(f.o, f.w, f.k)
    [] f.t = "sxy" -> SxyMap(f.o, f.sx, f.sy)
    [] f.t = "hom" -> HomMap(f.o, f.k)
\* ill-conditioned parameters
IllMap(f) ==
  CASE f.t = "proj" -> LET u == IF f.orth THEN Perp(VSub(f.B, f.A)) ELSE VSub(f.Q, f.P)
                           n == Perp(VSub(f.B, f.A))
                       IN CZero(n) \/ RSq(Dot(n, u)) \preceq (RFrac(1, 200000) ** (N2(n) ** N2(u)))
    [] f.t = "refl" -> CZero(VSub(f.B, f.A))
    [] f.t = "shear" -> CZero(f.w) \/ RAbs(f.th.c) \preceq RFrac(1, 50)
    [] f.t = "scal" -> CZero(f.w)
    [] OTHER -> FALSE
LinMag(A) == RMax(RMax(RAbs(A[1]), RAbs(A[2])), RMax(RAbs(A[3]), RAbs(A[4])))
AffMag(A) == RMax(LinMag(A), RMax(RAbs(A[5]), RAbs(A[6])))
\* points on which a map's parameters live: the scale of its rounding errors
MapMag(f) ==
  CASE f.t = "aff" -> R0
    [] f.t = "refl" -> MagAll(<<f.A, f.B>>)
    [] f.t = "proj" -> MagAll(<<f.A, f.B, f.P, f.Q>>)
    [] OTHER -> Mag(f.o)
\* scale of the result of applying A near points of magnitude m
Scale(A, m) == (R2 ** ((R1 ++ LinMag(A)) ** m)) ++ RMax(RAbs(A[5]), RAbs(A[6]))

AffNear(A, B, ml, mb) == (\A i \in 1..4 : Near(A[i], B[i], ml)) /\ (\A i \in 5..6 : Near(A[i], B[i], mb))
Aff3(v) == <<v[1][1], v[1][2], v[2][1], v[2][2], v[1][3], v[2][3]>>
Is3x3(r, A, ml, mb) ==
  /\ r.t = "mat"
  /\ r.n = 3 /\ r.m = 3
  /\ AffNear(Aff3(r.v), A, ml, mb)
  /\ r.v[3] = <<R0, R0, R1>>
RowsOk(r, A, rows, m) ==
  /\ r.t = "mat"
  /\ r.n = rows.n /\ r.m = 2
  /\ \A i \in 1..rows.n : NearP(r.v[i], AffApply(A, rows.v[i]), m)
MatMag(x) == MagAll(x.v)

\* aff.app / map.law : map, point, rows -> << image, image of rows, 3x3, affine, alias >>
PostMap(e) ==
  LET f == e.a[1]  p == e.a[2].v  rows == e.a[3]  r == e.r.v
  IN IF IllMap(f) THEN SKIP("ill-conditioned map")
     ELSE LET A == MapOf(f)
              m == Scale(A, RMax(RMax(Mag(p), MapMag(f)), IF rows.t = "mat" THEN MatMag(rows) ELSE R0))
              ml == R1 ++ LinMag(A)
          IN Chk(r[1].t = "pt" /\ NearP(r[1].v, AffApply(A, p), m), "point-image")
             \cup (IF rows.t = "mat" THEN Chk(RowsOk(r[2], A, rows, m), "rows-image") ELSE {})
             \cup Chk(Is3x3(r[3], A, ml, m), "3x3-matrix")
             \cup Chk(r[4].t = "aff" /\ AffNear(AffOf(r[4]), A, ml, m), "as-affine")
             \cup Chk(r[5].t = "pt" /\ NearP(r[5].v, AffApply(A, p), m), "alias")
SingA(A) == RAbs(AffDet(A)) \preceq (RFrac(1, 100000) ** RSq(LinMag(A)))
DyadicA(A) == \A i \in 1..4 : Dyadic(A[i])
PostAffComp(e) ==
  LET A == AffOf(e.a[1])  B == AffOf(e.a[2])  C == IF e.a[3].v THEN AffComp(B, A) ELSE AffComp(A, B)
      ml == R2 ** (LinMag(A) ** LinMag(B))
      mb == (R2 ** ((R1 ++ LinMag(A)) ** (R1 ++ LinMag(B)))) ** (R1 ++ RMax(AffMag(A), AffMag(B)))
  IN Chk(e.r.t = "aff" /\ AffNear(AffOf(e.r), C, ml, mb), "composite")
PostAffInv(e) ==
  LET A == AffOf(e.a[1])  r == e.r IN
  IF RZero(AffDet(A)) THEN
    IF DyadicA(A) THEN Chk(r.t = "none", "singular-has-no-inverse") ELSE SKIP("inexactly singular")
  ELSE IF SingA(A) THEN SKIP("nearly singular")
  ELSE LET B == AffInv(A) IN
       Chk(r.t = "aff" /\ AffNear(AffOf(r), B, LinMag(B) ** RInt(10), (AffMag(B) ++ R1) ** (R1 ++ AffMag(A)) ** RInt(10)), "inverse")
Area2(P, Q, R) == Cross(VSub(Q, P), VSub(R, P))
Flat(P) == RAbs(Area2(P[1], P[2], P[3])) \preceq (T4 ** RSq(MagAll(<<VSub(P[2], P[1]), VSub(P[3], P[1])>>)))
PostAff3(e) ==
  LET P == [i \in 1..3 |-> e.a[i].v]  Q == [i \in 1..3 |-> e.a[i + 3].v]  r == e.r
      zp == RZero(Area2(P[1], P[2], P[3]))  zq == RZero(Area2(Q[1], Q[2], Q[3]))
  IN IF (zp \/ ~Flat(P)) /\ (zq \/ ~Flat(Q)) THEN
       IF zp \/ zq THEN
         IF \A i \in 1..3 : DyadicP(P[i]) /\ DyadicP(Q[i]) THEN Chk(r.t = "none", "collinear-gives-nothing") ELSE SKIP("inexactly collinear")
       ELSE IF r.t # "aff" THEN {"no-map"}
       ELSE LET A == AffOf(r)
                m == (R1 ++ LinMag(A)) ** MagAll(<<P[1], P[2], P[3]>>) ++ MagAll(<<Q[1], Q[2], Q[3]>>)
            IN Chk(\A i \in 1..3 : NearP(AffApply(A, P[i]), Q[i], m ** RInt(10)), "sends-sources-to-targets")
     ELSE SKIP("nearly collinear")

\* ---- figures --------------------------------------------------------------
\* the "covariance" of an ellipse: c + (half axes); it maps to L Cov L'
Cov(f) ==
  IF f.t = "circle" THEN <<RSq(f.r), R0, RSq(f.r)>>
  ELSE LET n == N2(f.u)  a2 == RSq(f.a)  b2 == RSq(f.b) IN
       <<((a2 ** RSq(f.u[1])) ++ (b2 ** RSq(f.u[2]))) // n, ((a2 -- b2) ** (f.u[1] ** f.u[2])) // n,
         ((a2 ** RSq(f.u[2])) ++ (b2 ** RSq(f.u[1]))) // n>>
CovImg(A, S) ==
  LET h(x, y) == <<(A[1] ** x) ++ (A[2] ** y), (A[3] ** x) ++ (A[4] ** y)>>
      r1 == h(S[1], S[2])   r2 == h(S[2], S[3])       \* L applied to the columns
  IN <<(r1[1] ** A[1]) ++ (r2[1] ** A[2]), (r1[1] ** A[3]) ++ (r2[1] ** A[4]), (r1[2] ** A[3]) ++ (r2[2] ** A[4])>>
CovDet(S) == (S[1] ** S[3]) -- RSq(S[2])
CovLevel(S, v) ==        \* v' S^-1 v
  ((S[3] ** RSq(v[1])) -- (R2 ** (S[2] ** (v[1] ** v[2]))) ++ (S[1] ** RSq(v[2]))) // CovDet(S)
CovMag(S) == RMax(S[1], S[3])
IsEll(f) == f.t \in {"circle", "ell"}
\* a recorded ellipse or circle is the one with centre c and covariance S
MatchEll(f, c, S, m, t) ==
  /\ f.t = "ell" => RPos(f.b) /\ f.b \preceq (f.a ** (R1 ++ Tol))
  /\ f.t = "circle" => RPos(f.r)
  /\ NearPT(f.c, c, m, t)
  /\ LET W == Cov(f)  k == CovMag(S) IN
     /\ \A i \in 1..3 : NearT(W[i], S[i], k, t)
     /\ NearT(CovDet(W), CovDet(S), RSq(k), t)
LineImage(r, A, l, m) ==
  IF r.t # "line" THEN {"not-a-line"}
  ELSE Chk(NearP(r.A, AffApply(A, l.A), m) /\ NearP(r.B, AffApply(A, l.B), m), "ends")
       \cup Chk(r.ea = l.ea /\ r.eb = l.eb, "extents")
EllImage(r, A, f, m) ==
  IF ~IsEll(r) THEN {"not-an-ellipse"}
  ELSE LET S == CovImg(A, Cov(f)) IN
       Chk(r.t = "ell" => (r.b \preceq (r.a ** (R1 ++ Tol))), "major-is-longer")
       \cup Chk(MatchEll(r, AffApply(A, f.c), S, m, T6), "image-set")
\* flatter than 1:100, or tiny compared with the coordinates
Flat2(S, m) == \/ CovDet(S) \prec (RFrac(1, 1000000) ** RSq(CovMag(S)))
               \/ (CovDet(S) // CovMag(S)) \prec (Eps10 ** RSq(m))
FigSize(f) == IF f.t = "line" THEN MagAll(<<f.A, f.B>>)
              ELSE Mag(f.c) ++ (IF f.t = "circle" THEN f.r ELSE f.a)
\* fig : map, figure, method name -> image
PostFig(e) ==
  LET f == e.a[1]  x == e.a[2]  r == e.r IN
  IF IllMap(f) THEN SKIP("ill-conditioned map")
  ELSE LET A == MapOf(f) IN
    IF RZero(AffDet(A)) THEN
      IF f.t = "aff" THEN (IF DyadicA(A) THEN Chk(r.t = "none", "singular-gives-nothing") ELSE SKIP("inexactly singular"))
      ELSE SKIP("singular map")
    ELSE IF SingA(A) THEN SKIP("nearly singular")
    ELSE LET m == Scale(A, RMax(FigSize(x), MapMag(f))) IN
         IF x.t = "line" THEN LineImage(r, A, x, m)
         ELSE IF Flat2(Cov(x), m) \/ Flat2(CovImg(A, Cov(x)), m) THEN SKIP("very flat ellipse")
         ELSE EllImage(r, A, x, m)
PostAffEll2(e) ==
  LET f == e.a[1]  g == e.a[2]  r == e.r IN
  IF r.t # "aff" THEN {"no-map"}
  ELSE LET A == AffOf(r)  S == CovImg(A, Cov(f))  W == Cov(g)  k == CovMag(W)
           m == (R1 ++ LinMag(A)) ** Mag(f.c) ++ FigSize(g)
       IN Chk(NearPT(AffApply(A, f.c), g.c, m, T6), "centre-to-centre")
          \cup Chk(\A i \in 1..3 : NearT(S[i], W[i], k, T6), "maps-first-onto-second")
PostAsEllipse(e) == IF e.r.t # "ell" THEN {"not-an-ellipse"}
                    ELSE EllImage(e.r, AffId, e.a[1], FigSize(e.a[1]))

PAffOps == {"aff.app", "map.law", "aff.comp", "aff.inv", "aff.3pts", "aff.ell2", "fig", "aff.line", "circ.ell"}
PostAff(e) ==
  CASE e.op \in {"aff.app", "map.law"} -> PostMap(e)
    [] e.op = "aff.comp" -> PostAffComp(e)
    [] e.op = "aff.inv" -> PostAffInv(e)
    [] e.op = "aff.3pts" -> PostAff3(e)
    [] e.op = "aff.ell2" -> PostAffEll2(e)
    [] e.op \in {"fig", "aff.line"} -> PostFig(e)
    [] e.op = "circ.ell" -> PostAsEllipse(e)
=============================================================================
