-------------------------------- MODULE PEll --------------------------------
(* Ellipses: P15 descriptions, P16 parametrized points and arcs, P17       *)
(* smallest ellipses (minimality by an explicit multiplier certificate).   *)
EXTENDS PCirc

\* ---- the model ------------------------------------------------------------
EU(f) == IF f.t = "circle" THEN C1 ELSE f.u
EA(f) == IF f.t = "circle" THEN f.r ELSE f.a
EB(f) == IF f.t = "circle" THEN f.r ELSE f.b
\* the point of eccentric angle (cos, sin) = z, and back  (f.u is a unit vector)
EllPt(f, z) == VAdd(f.c, VAdd(VMul(EA(f) ** z[1], EU(f)), VMul(EB(f) ** z[2], Perp(EU(f)))))
Local(f, p) == LET v == VSub(p, f.c)  u == EU(f) IN <<Dot(v, u) // EA(f), Cross(u, v) // EB(f)>>
RimZ == {<<R1, R0>>, <<R0, R1>>, <<RNeg(R1), R0>>, <<R0, RNeg(R1)>>, <<RFrac(3, 5), RFrac(4, 5)>>, <<RFrac(-4, 5), RFrac(3, 5)>>,
         <<RFrac(-3, 5), RFrac(-4, 5)>>, <<RFrac(4, 5), RFrac(-3, 5)>>}
Cond(f) == RSq(R1 ++ ((Mag(f.c) ++ EA(f)) // EB(f)))
\* the zero set of the conic q is the ellipse f
ConIs(q, f, t) ==
  LET K == ConEval(q, f.c) IN
  /\ ~RZero(K)
  /\ \A z \in RimZ : RAbs(ConEval(q, EllPt(f, z))) \preceq (t ** (RAbs(K) ** Cond(f)))
\* classification of a conic
ConDisc(q) == (R4 ** (q[1] ** q[3])) -- RSq(q[2])
ConCentre(q) == LET d == ConDisc(q) IN
  <<((q[2] ** q[5]) -- (R2 ** (q[3] ** q[4]))) // d, ((q[2] ** q[4]) -- (R2 ** (q[1] ** q[5]))) // d>>
ConMax2(q) == RSq(q[1]) ++ RSq(q[2]) ++ RSq(q[3])
ConKind(q) ==     \* "ellipse", "none" (not a real ellipse) or "unsure"
  LET d == ConDisc(q)  n == ConMax2(q)  dy == \A i \in 1..6 : Dyadic(q[i]) IN
  IF RZero(n) THEN "none"
  ELSE IF RZero(d) /\ dy THEN "none"
  ELSE IF RAbs(d) \preceq (T4 ** n) THEN "unsure"
  ELSE IF RNegv(d) THEN "none"
  ELSE LET c == ConCentre(q)
           K == RNeg(ConEval(q, c)) ** RInt(RSgn(q[1]))
           s == RAbs(q[6]) ++ (RMax(RAbs(q[1]), RAbs(q[3])) ** N2(c))
       IN IF RZero(q[4]) /\ RZero(q[5]) /\ RZero(q[6]) /\ dy THEN "none"
          ELSE IF RAbs(K) \preceq (T4 ** s) THEN "unsure"
          ELSE IF RPos(K) THEN "ellipse" ELSE "none"
\* the conic through five points, by cofactors
RECURSIVE Det(_)
Det(M) == LET k == Len(M) IN
  IF k = 1 THEN M[1][1]
  ELSE IF k = 2 THEN (M[1][1] ** M[2][2]) -- (M[1][2] ** M[2][1])
  ELSE LET minor(j) == [i \in 1..(k - 1) |-> [l \in 1..(k - 1) |-> M[i + 1][IF l < j THEN l ELSE l + 1]]]
           term(j) == IF RZero(M[1][j]) THEN R0 ELSE (IF j % 2 = 1 THEN M[1][j] ELSE RNeg(M[1][j])) ** Det(minor(j))
       IN RSumSeq([j \in 1..k |-> term(j)])
ConThrough(P) ==
  LET row(p) == <<RSq(p[1]), p[1] ** p[2], RSq(p[2]), p[1], p[2], R1>>
      M(j) == [i \in 1..5 |-> LET w == row(P[i]) IN [l \in 1..5 |-> w[IF l < j THEN l ELSE l + 1]]]
  IN [j \in 1..6 |-> IF j % 2 = 1 THEN Det(M(j)) ELSE RNeg(Det(M(j)))]
\* the image of a conic under an invertible affine map A : q o A^-1
ConSubst(q, B) ==
  LET a == B[1] b == B[2] c == B[3] d == B[4] e == B[5] f == B[6] IN   \* x = a X + b Y + e, y = c X + d Y + f
  <<(q[1] ** RSq(a)) ++ (q[2] ** (a ** c)) ++ (q[3] ** RSq(c)),
    (R2 ** (q[1] ** (a ** b))) ++ (q[2] ** ((a ** d) ++ (b ** c))) ++ (R2 ** (q[3] ** (c ** d))),
    (q[1] ** RSq(b)) ++ (q[2] ** (b ** d)) ++ (q[3] ** RSq(d)),
    (R2 ** (q[1] ** (a ** e))) ++ (q[2] ** ((a ** f) ++ (c ** e))) ++ (R2 ** (q[3] ** (c ** f))) ++ (q[4] ** a) ++ (q[5] ** c),
    (R2 ** (q[1] ** (b ** e))) ++ (q[2] ** ((b ** f) ++ (d ** e))) ++ (R2 ** (q[3] ** (d ** f))) ++ (q[4] ** b) ++ (q[5] ** d),
    ConEval(q, <<e, f>>)>>

\* ---- P15 ------------------------------------------------------------------
Coefs(r) == <<r.v["A"].v, r.v["B"].v, r.v["C"].v, r.v["D"].v, r.v["E"].v, r.v["F"].v>>
IsCoefs(r) == r.t = "dict" /\ DOMAIN r.v = {"A", "B", "C", "D", "E", "F"} /\ \A k \in DOMAIN r.v : r.v[k].t = "num"
IsEll2(r) == r.t = "ell" /\ RPos(r.b) /\ (r.b \preceq (r.a ** (R1 ++ Tol)))
PostEllEq(e) ==          \* ell -> equation
  LET f == e.a[1]  r == e.r IN
  IF ~IsCoefs(r) THEN {"six-coefficients"} ELSE Chk(ConIs(Coefs(r), f, T6), "equation-is-the-ellipse")
\* v' S v
Quad(S, v) == (S[1][1] ** RSq(v[1])) ++ ((S[1][2] ++ S[2][1]) ** (v[1] ** v[2])) ++ (S[2][2] ** RSq(v[2]))
ShapeIs(S, f, t) ==
  \A z \in RimZ : LET v == VSub(EllPt(f, z), f.c) IN RAbs(Quad(S, v) -- R1) \preceq (t ** RSq(EA(f) // EB(f)))
PostShape(e) ==
  LET f == e.a[1]  r == e.r IN
  IF RInt(500) \prec (EA(f) // EB(f)) THEN SKIP("very flat ellipse")
  ELSE IF r.t # "mat" THEN {"shape-matrix"}
  ELSE Chk(r.n = 2 /\ r.m = 2 /\ ShapeIs(r.v, f, Eps10 ** RSq(EA(f) // EB(f))), "shape-matrix-is-the-ellipse")
\* ell.re : ell, factor -> << from equation * factor, from centre and shape, from five points, equal? x3 >>
SameEll(r, f, t) == IsEll2(r) /\ MatchEll(r, f.c, Cov(f), R1 ++ FigSize(f), t)
PostRebuild(e) ==
  LET f == e.a[1]  r == e.r.v  t == T6 ** Cond(f) IN
  IF RFrac(1, 100) \preceq t THEN SKIP("very flat or distant ellipse")
  ELSE Chk(SameEll(r[1], f, t), "from-equation")
       \cup Chk(SameEll(r[2], f, t), "from-centre-and-matrix")
       \cup Chk(SameEll(r[3], f, t), "from-five-points")
       \cup (IF Cond(f) \preceq RInt(400) THEN Chk(\A i \in 4..6 : r[i].t = "bool" /\ r[i].v, "rebuilt-is-equal") ELSE {})
PostFromEq(e) ==         \* A .. F
  LET q == [i \in 1..6 |-> e.a[i].v]  k == ConKind(q)  r == e.r IN
  CASE k = "none" -> Chk(r.t = "raise", "not-an-ellipse-refused")
    [] k = "unsure" -> SKIP("nearly degenerate conic")
    [] OTHER -> IF r.t # "ell" THEN {"ellipse-accepted"}
                ELSE IF RFrac(1, 100) \preceq (T6 ** Cond(r)) THEN SKIP("very flat or distant ellipse")
                ELSE Chk(IsEll2(r) /\ ConIs(q, r, T6), "ellipse-of-the-equation")
PostFromMat(e) ==        \* centre, S
  LET c == e.a[1].v  S == e.a[2].v  r == e.r
      n == RSq(S[1][1]) ++ RSq(S[2][2]) ++ RSq(S[1][2])
      d == (S[1][1] ** S[2][2]) -- (S[1][2] ** S[2][1])
  IN IF RAbs(d) \preceq (T4 ** n) THEN SKIP("nearly singular matrix")
     ELSE IF RNegv(d) \/ RNegv(S[1][1]) THEN Chk(r.t = "raise", "not-positive-refused")
     ELSE IF ~IsEll2(r) THEN {"ellipse-accepted"}
     ELSE Chk(NearP(r.c, c, R1 ++ Mag(c)) /\ ShapeIs(S, r, T6), "ellipse-of-the-matrix")
PostFive(e) ==           \* five points -> << ellipse, equation >>
  LET P == [i \in 1..5 |-> e.a[1].v[i].v]  r == e.r.v IN
  IF \E i, j \in 1..5 : i < j /\ P[i] = P[j] THEN Chk(r[1].t = "raise" /\ r[2].t = "raise", "equal-points-refused")
  ELSE LET q == ConThrough(P)  n == ConMax2(q)  d == ConDisc(q)
           mx == RMaxSeq(q)
           sp == RScale(R1, MagAll(P))
       IN IF RZero(n) THEN SKIP("no single conic")
          \* the six cofactors must not be lost in rounding
          ELSE IF RMaxSeq(<<q[1], q[2], q[3]>>) \preceq (T4 ** sp) THEN SKIP("points nearly on a line or close together")
          ELSE IF RAbs(d) \preceq (RFrac(1, 2000) ** n) THEN SKIP("nearly a parabola")
          ELSE IF RNegv(d) THEN Chk(r[1].t = "raise" /\ r[2].t = "raise", "not-an-ellipse-refused")
          ELSE IF r[1].t # "ell" THEN {"ellipse-accepted"}
          ELSE IF RInt(200) \prec (r[1].a // r[1].b) THEN SKIP("very flat ellipse")
          ELSE Chk(IsEll2(r[1]) /\ \A i \in 1..5 : NearT(EllLevel(r[1], P[i]), R1, RInt(10), T6), "ellipse-through-the-points")
               \cup (IF ~IsCoefs(r[2]) THEN {"six-coefficients"}
                     ELSE LET w == Coefs(r[2])  mw == RMaxSeq(w) IN
                          Chk(~RZero(mw) /\ \A i, j \in 1..6 : NearT(q[i] ** w[j], q[j] ** w[i], mx ** mw, T6), "equation-through-the-points"))
PostEllSame(e) ==
  LET f == e.a[1]  g == e.a[2]  r == e.r
      u == EU(f)  w == EU(g)
      dc == Mag(VSub(f.c, g.c))
      da == RAbs(EA(f) -- EA(g))
      db == RAbs(EB(f) -- EB(g))
      d == RMax(dc, RMax(da, db))
      s == RAbs(Cross(u, w)) ** (EA(f) -- EB(f))
  IN IF (EA(f) \prec EB(f)) \/ (EA(g) \prec EB(g)) THEN SKIP("major and minor radius exchanged")
     ELSE IF r.t # "bool" THEN {"equal-iff-same-set"}
     ELSE IF d \preceq (Eps10 ** RMin(R1, EB(f))) /\ s \preceq (Eps10 ** EA(f)) THEN Chk(r.v, "equal-iff-same-set")
     ELSE IF \/ ((T4 ** EB(f)) ++ (Tol ** Mag(f.c))) \preceq dc
             \/ (T4 ** EA(f)) \preceq da \/ (T4 ** EB(f)) \preceq db \/ (T4 ** EA(f)) \preceq s THEN Chk(~r.v, "equal-iff-same-set")
     ELSE SKIP("nearly equal")

IntOf(x) == IF x.v[1] = 0 THEN 0 ELSE x.v[1] * x.v[2][1]     \* a recorded integer below 10000
\* ---- P16 ------------------------------------------------------------------
Z0 == <<R1, R0>>
NearZ(z, w, k) == NearPT(z, w, k, Tol)
Flatness(f) == R1 ++ ((Mag(f.c) ++ EA(f)) // EB(f))
\* z[1], z[2], ... run once around the unit circle in equal steps
OnceAround(z, n, k) ==
  IF n = 1 THEN NearZ(z[1], Z0, k)
  ELSE LET w == z[2] IN
       /\ NearZ(z[1], Z0, k)
       /\ \A i \in 1..(n - 1) : NearZ(z[i + 1], CMul(z[i], w), R2 ** k)
       /\ NearZ(CMul(z[n], w), Z0, R2 ** k)
       /\ n >= 3 => RPos(w[2]) /\ \A i \in 3..n : z[i][1] \preceq (w[1] ++ (Tol ** k))
PostEllPath(e) ==
  LET f == e.a[1]  n == IntOf(e.a[2])  r == e.r IN
  IF r.t # "mat" THEN {"path"}
  ELSE IF r.n # n \/ r.m # 2 THEN {"number-of-points"}
  ELSE Chk(OnceAround([i \in 1..n |-> Local(f, r.v[i])], n, Flatness(f)), "once-around-from-the-major-axis")
\* angles in order: half-plane, then cross product
HalfOf(v) == IF RNegv(v[2]) \/ (RZero(v[2]) /\ RNegv(v[1])) THEN 1 ELSE 0
ArgLess(v, w) == HalfOf(v) < HalfOf(w) \/ (HalfOf(v) = HalfOf(w) /\ RPos(Cross(v, w)))
ArcEnds(f) == <<VAdd(f.c, VMul(f.r, <<f.a1.c, f.a1.s>>)), VAdd(f.c, VMul(f.r, <<f.a2.c, f.a2.s>>))>>
PostArcPath(e) ==
  LET f == e.a[1]  n == IntOf(e.a[2])  r == e.r
      s == <<f.a1.c, f.a1.s>>  t == <<f.a2.c, f.a2.s>>
      k == R1 ++ (Mag(f.c) // f.r)
  IN IF r.t # "mat" THEN {"path"}
     ELSE IF r.n # n \/ r.m # 2 THEN {"number-of-points"}
     ELSE LET z == [i \in 1..n |-> VMul(R1 // f.r, VSub(r.v[i], f.c))]
              v == [i \in 1..n |-> CMul(z[i], Conj(z[1]))]
          IN Chk(NearZ(z[1], s, k), "starts-at-the-start")
             \cup Chk(\A i \in 1..n : Near(N2(z[i]), R1, R2 ** k), "on-its-circle")
             \cup (IF NearPT(s, t, R1, T6) THEN {}      \* an empty or a full arc
                   ELSE IF n = 1 THEN {}
                   ELSE Chk(NearZ(z[n], t, k), "ends-at-the-end")
                        \cup Chk(\A i \in 1..(n - 1) : NearZ(v[i + 1], CMul(v[i], v[2]), R4 ** k), "equal-steps")
                        \cup Chk(\A i \in 2..(n - 1) : ArgLess(v[i], v[i + 1]), "counterclockwise"))
PostArcEnds(e) ==
  LET f == e.a[1]  r == e.r.v  E == ArcEnds(f)  m == Mag(f.c) ++ f.r IN
  Chk(r[1].t = "pt" /\ NearP(r[1].v, E[1], m), "starting-point") \cup Chk(r[2].t = "pt" /\ NearP(r[2].v, E[2], m), "ending-point")
\* the point p is on f in the polar direction a, measured from the major axis
AtPolar(f, p, a) ==
  LET v == VSub(p, f.c)  u == EU(f)
      w == <<Dot(v, u), Cross(u, v)>>  d == <<a.c, a.s>>
  IN /\ NearT(EllLevel(f, p), R1, RSq(Flatness(f)), Tol)
     /\ RAbs(Cross(w, d)) \preceq (Tol ** (Mag(f.c) ++ EA(f))) /\ RPos(Dot(w, d))
\* ell.pfa : ell, angles, vector?
PostEllPoint(e) ==
  LET f == e.a[1]  A == e.a[2].v  n == Len(A)  r == e.r IN
  IF r.t = "pt" THEN Chk(n = 1 /\ AtPolar(f, r.v, A[1]), "point-at-polar-angle")
  ELSE IF r.t # "mat" THEN {"point-at-polar-angle"}
  ELSE Chk(r.n = n /\ \A i \in 1..n : AtPolar(f, r.v[i], A[i]), "point-at-polar-angle")
PostTheta2t(e) ==
  LET f == e.a[1]  th == e.a[2]  r == e.r IN
  IF r.t # "ang" THEN {"eccentric-angle"}
  ELSE LET w == <<EA(f) ** r.c, EB(f) ** r.s>>  d == <<th.c, th.s>> IN
       Chk(RAbs(Cross(w, d)) \preceq (Tol ** EA(f)) /\ RPos(Dot(w, d)), "same-point")
       \cup Chk(RAbs(r.rad -- th.rad) \preceq RFrac(355, 226), "same-turn")
PostNormal(e) ==
  LET f == e.a[1]  th == e.a[2]  r == e.r  u == EU(f) IN
  IF r.t # "pt" THEN {"normal"}
  ELSE LET w == <<Dot(r.v, u), Cross(u, r.v)>>
           d == <<EB(f) ** th.c, EA(f) ** th.s>>       \* the gradient
       IN Chk(Near(N2(r.v), R1, R1), "unit")
          \cup Chk(RAbs(Cross(w, d)) \preceq (Tol ** EA(f)) /\ RPos(Dot(w, d)), "outward-normal")
PostDiam(e) ==           \* ell, t, conjugate
  LET f == e.a[1]  th == e.a[2]  cj == e.a[3].v  r == e.r
      z == <<th.c, th.s>>  m == (Mag(f.c) ++ EA(f)) ** RInt(2)
      ok(l, w) == l.t = "line" /\ ~l.ea /\ ~l.eb /\ NearP(l.A, EllPt(f, w), m) /\ NearP(l.B, EllPt(f, VNeg(w)), m)
  IN IF cj THEN Chk(r.t = "list" /\ Len(r.v) = 2 /\ ok(r.v[1], z) /\ ok(r.v[2], Perp(z)), "conjugate-diameters")
     ELSE Chk(ok(r, z), "diameter")
PostEllMem(e) ==         \* ell, point -> << includes, contains >>
  LET f == e.a[1]  p == e.a[2].v  r == e.r.v
      x == EllLevel(f, p) -- R1
      k == EA(f) // EB(f)      \* how flat the ellipse is
      z == IF k \preceq RInt(300) THEN T6 ELSE T4
  IN IF r[1].t # "bool" \/ r[2].t # "bool" THEN {"membership"}
     ELSE IF k \preceq RInt(300) /\ RAbs(x) \preceq RMin(Eps10, (Eps11 ** RFrac(1, 2)) ++ ((Eps10 ** RFrac(1, 100000)) ** (Mag(f.c) // EB(f)))) THEN
       \* on the ellipse, to the precision of floats: only inclusion is decided
       Chk(r[1].v, "includes-iff-on-ellipse")
     ELSE IF RAbs(x) \preceq z THEN SKIP("borderline")
     ELSE Chk(~r[1].v, "includes-iff-on-ellipse") \cup Chk(r[2].v = RNegv(x), "contains-iff-inside")
PostCircPoint(e) ==
  LET f == e.a[1]  a == e.a[2] IN
  Chk(e.r.t = "pt" /\ NearP(e.r.v, VAdd(f.c, VMul(f.r, <<a.c, a.s>>)), Mag(f.c) ++ f.r), "point-at-angle")

\* ---- P17 ------------------------------------------------------------------
Centroid(P) == VMul(R1 // RInt(Len(P)), <<RSumSeq([i \in 1..Len(P) |-> P[i][1]]), RSumSeq([i \in 1..Len(P) |-> P[i][2]])>>)
\* spread of a set of points: smallest / largest eigenvalue, up to a factor 4
Spread(P) ==
  LET c == Centroid(P)  n == Len(P)
      sxx == RSumSeq([i \in 1..n |-> RSq(P[i][1] -- c[1])])
      syy == RSumSeq([i \in 1..n |-> RSq(P[i][2] -- c[2])])
      sxy == RSumSeq([i \in 1..n |-> (P[i][1] -- c[1]) ** (P[i][2] -- c[2])])
      t == sxx ++ syy
  IN IF RZero(t) THEN R0 ELSE ((sxx ** syy) -- RSq(sxy)) // RSq(t)
FlatSet(P) == Spread(P) \preceq RFrac(1, 100000)
Through(f, P) == \A i \in 1..Len(P) : NearT(EllLevel(f, P[i]), R1, Cond(f), T6)
PostB3(e) ==
  LET P == e.a[1].v  r == e.r IN
  IF FlatSet(P) THEN SKIP("nearly collinear")
  ELSE IF ~IsEll2(r) THEN {"ellipse"}
  ELSE Chk(Through(r, P), "through-the-points") \cup Chk(NearPT(r.c, Centroid(P), R1 ++ MagAll(P), T6), "centre-is-centroid")
\* the product of the lines pq and st, its mean over the unit circle
ChordMean(p, q, s, t) ==
  LET n == Perp(VSub(q, p))  k == RNeg(Dot(n, p))
      m == Perp(VSub(t, s))  h == RNeg(Dot(m, s))
  IN (RHalf ** Dot(n, m)) ++ (k ** h)
\* four points in convex position: every point outside the triangle of the others
InTri(p, a, b, c) == LET x == Cross(VSub(b, a), VSub(p, a))  y == Cross(VSub(c, b), VSub(p, b))  z == Cross(VSub(a, c), VSub(p, c))
                     IN <<RMin(x, RMin(y, z)), RMax(x, RMax(y, z))>>
Convex4(P, t) ==
  \A i \in 1..4 : LET o == CHOOSE o \in [1..3 -> (1..4) \ {i}] : o[1] < o[2] /\ o[2] < o[3]
                      w == InTri(P[i], P[o[1]], P[o[2]], P[o[3]])
                  IN RNegv(w[1] ++ t) /\ RPos(w[2] -- t)
\* no three of them in line: smallest of the four areas
MinArea(P) == LET A(i, j, k) == RAbs(Cross(VSub(P[j], P[i]), VSub(P[k], P[i]))) IN
  RMin(RMin(A(1, 2, 3), A(1, 2, 4)), RMin(A(1, 3, 4), A(2, 3, 4)))
\* the first variation of the area vanishes along the pencil of conics through the points
Stationary(f, P, t) ==
  LET z == [i \in 1..4 |-> Local(f, P[i])] IN
  \* two members of the pencil differing from the ellipse; together with it they span the pencil
  RAbs(ChordMean(z[1], z[2], z[3], z[4])) \preceq t /\ RAbs(ChordMean(z[1], z[3], z[2], z[4])) \preceq t
PostB4(e) ==
  LET P == e.a[1].v  r == e.r  m == MagAll([i \in 1..4 |-> VSub(P[i], P[1])]) IN
  IF ~Convex4(P, RFrac(1, 2000) ** RSq(m)) \/ MinArea(P) \preceq (RFrac(1, 1000) ** RSq(m)) THEN SKIP("not in convex position")
  ELSE IF ~IsEll2(r) THEN {"ellipse"}
  ELSE Chk(Through(r, P), "through-the-points")
       \cup Chk(Stationary(r, P, T4), "least-area")
\* the multipliers w prove that no ellipse around the points P has a smaller area than f:
\* w >= 0, sum w z = 0, sum w z z' = 1 and sum w = 2 in the coordinates in which f is the unit circle:
\* an ellipse (z-c)'S(z-c) <= 1 around P has tr S + 2 c'Sc = sum w (z-c)'S(z-c) <= sum w = 2, so det S <= 1
Certificate(f, P, w, t) ==
  LET n == Len(P)  z == [i \in 1..n |-> Local(f, P[i])]
      sm(g(_)) == RSumSeq([i \in 1..n |-> IF RZero(w[i]) THEN R0 ELSE w[i] ** g(z[i])])
      x(a) == a[1]  y(a) == a[2]  xx(a) == RSq(a[1])  yy(a) == RSq(a[2])  xy(a) == a[1] ** a[2]
  IN /\ \A i \in 1..n : ~RNegv(w[i])
     /\ NearT(RSumSeq(w), R2, R1, t)
     /\ NearT(sm(x), R0, R1, t) /\ NearT(sm(y), R0, R1, t)
     /\ NearT(sm(xx), R1, R1, t) /\ NearT(sm(yy), R1, R1, t) /\ NearT(sm(xy), R0, R1, t)
AllIn(f, P, t) == \A i \in 1..Len(P) : EllLevel(f, P[i]) \preceq (R1 ++ t)
\* lj : points, seed (lj.b: and the number of points given as boundary points) -> << ellipse, multipliers >>
CollinearSet(P) == \A i, j, k \in 1..Len(P) : RZero(Cross(VSub(P[j], P[i]), VSub(P[k], P[i])))
PostLJ(e) ==
  LET P == e.a[1].v  f == e.r.v[1]  w == e.r.v[2] IN
  IF FlatSet(P) THEN
    IF CollinearSet(P) /\ \A i \in 1..Len(P) : DyadicP(P[i]) THEN Chk(f.t = "none", "collinear-gives-nothing") ELSE SKIP("nearly collinear")
  ELSE IF ~IsEll2(f) THEN {"ellipse"}
  ELSE Chk(AllIn(f, P, T6), "contains-every-point")
       \cup Chk(w.t = "vec" /\ Certificate(f, P, w.v, T4), "no-smaller-ellipse")

PEllOps == {"ell.eq", "ell.shape", "ell.re", "ell.fromeq", "ell.frommat", "ell.five", "ell.same", "ell.path", "arc.path", "arc.ends",
            "ell.pfa", "ell.t", "ell.normal", "ell.diam", "ell.mem", "circ.pfa", "b3", "b4", "lj", "lj.b"}
PostEll(e) ==
  CASE e.op = "ell.eq" -> PostEllEq(e)
    [] e.op = "ell.shape" -> PostShape(e)
    [] e.op = "ell.re" -> PostRebuild(e)
    [] e.op = "ell.fromeq" -> PostFromEq(e)
    [] e.op = "ell.frommat" -> PostFromMat(e)
    [] e.op = "ell.five" -> PostFive(e)
    [] e.op = "ell.same" -> PostEllSame(e)
    [] e.op = "ell.path" -> PostEllPath(e)
    [] e.op = "arc.path" -> PostArcPath(e)
    [] e.op = "arc.ends" -> PostArcEnds(e)
    [] e.op = "ell.pfa" -> PostEllPoint(e)
    [] e.op = "ell.t" -> PostTheta2t(e)
    [] e.op = "ell.normal" -> PostNormal(e)
    [] e.op = "ell.diam" -> PostDiam(e)
    [] e.op = "ell.mem" -> PostEllMem(e)
    [] e.op = "circ.pfa" -> PostCircPoint(e)
    [] e.op = "b3" -> PostB3(e)
    [] e.op = "b4" -> PostB4(e)
    [] e.op \in {"lj", "lj.b"} -> PostLJ(e)
=============================================================================
