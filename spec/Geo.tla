-------------------------------- MODULE Geo --------------------------------
(***************************************************************************)
(* Exact plane geometry: points (pairs of rationals), complex numbers      *)
(* (the same pairs), generalized circles (a line or a circle as the zero   *)
(* set of A(x^2+y^2) + bx x + by y + D) and conics, plus the tolerances    *)
(* with which recorded floating-point results are compared to them.        *)
(***************************************************************************)
EXTENDS Rat, FiniteSets

Abs(n) == IF n < 0 THEN -n ELSE n

\* ---- vectors --------------------------------------------------------------
VAdd(p, q) == <<p[1] ++ q[1], p[2] ++ q[2]>>
VSub(p, q) == <<p[1] -- q[1], p[2] -- q[2]>>
VMul(k, p) == <<k ** p[1], k ** p[2]>>
VNeg(p) == <<RNeg(p[1]), RNeg(p[2])>>
Dot(p, q) == (p[1] ** q[1]) ++ (p[2] ** q[2])
Cross(p, q) == (p[1] ** q[2]) -- (p[2] ** q[1])
N2(p) == Dot(p, p)
D2(p, q) == N2(VSub(p, q))
Perp(p) == <<RNeg(p[2]), p[1]>>
Mid(p, q) == VMul(RHalf, VAdd(p, q))
V0 == <<R0, R0>>
IPt(x, y) == <<RInt(x), RInt(y)>>
\* maximum norm
Mag(p) == RMax(RAbs(p[1]), RAbs(p[2]))
RECURSIVE MagAll(_)
MagAll(s) == IF s = <<>> THEN R0 ELSE RMax(Mag(Head(s)), MagAll(Tail(s)))

\* ---- complex numbers ------------------------------------------------------
CMul(z, w) == <<(z[1] ** w[1]) -- (z[2] ** w[2]), (z[1] ** w[2]) ++ (z[2] ** w[1])>>
Conj(z) == <<z[1], RNeg(z[2])>>
CInv(z) == LET n == N2(z) IN <<z[1] // n, RNeg(z[2] // n)>>
CDiv(z, w) == CMul(z, CInv(w))
C1 == <<R1, R0>>
CZero(z) == RZero(z[1]) /\ RZero(z[2])

\* ---- tolerances -----------------------------------------------------------
\* the size b of the data, or a when all of them are zero
RScale(a, b) == IF RPos(b) THEN b ELSE a
Tol == RFrac(1, 10000000)          \* relative, for well-conditioned quantities
Tol5 == RFrac(1, 100000)           \* zones in which a decision may go either way
Near(x, y, m) == RAbs(x -- y) \preceq (Tol ** m)
NearT(x, y, m, t) == RAbs(x -- y) \preceq (t ** m)
NearP(p, q, m) == Near(p[1], q[1], m) /\ Near(p[2], q[2], m)
NearPT(p, q, m, t) == NearT(p[1], q[1], m, t) /\ NearT(p[2], q[2], m, t)
\* d is the square root of s up to tm (exact comparison, no root is taken)
IsSqrt(d, s, tm) ==
  /\ RNeg(tm) \preceq d
  /\ s \preceq RSq(d ++ tm)
  /\ d \preceq tm \/ RSq(d -- tm) \preceq s
\* |p - q| = d up to tol*m
IsDist(d, p, q, m) == IsSqrt(d, D2(p, q), Tol ** m)
\* unsigned vectors parallel / orthogonal up to a relative angle t
ParallelT(v, w, t) == RSq(Cross(v, w)) \preceq (RSq(t) ** (N2(v) ** N2(w)))
OrthoT(v, w, t) == RSq(Dot(v, w)) \preceq (RSq(t) ** (N2(v) ** N2(w)))

\* ---- verdicts -------------------------------------------------------------
Chk(c, name) == IF c THEN {} ELSE {name}
SKIP(why) == {"SKIP:" \o why}
IsSkipSet(S) == \E b \in S : Len(b) >= 5 /\ SubSeq(b, 1, 5) = "SKIP:"

\* ---- generalized circles --------------------------------------------------
GCircle(c, r) == <<R1, R2 ** RNeg(c[1]), R2 ** RNeg(c[2]), N2(c) -- RSq(r)>>
GLine(A, B) == LET n == Perp(VSub(B, A)) IN <<R0, n[1], n[2], RNeg(Dot(n, A))>>
GFig(f) == IF f.t = "circle" THEN GCircle(f.c, f.r) ELSE GLine(f.A, f.B)
GEval(G, p) == (G[1] ** N2(p)) ++ (G[2] ** p[1]) ++ (G[3] ** p[2]) ++ G[4]
OnG(G, p) == RZero(GEval(G, p))
GB(G) == <<G[2], G[3]>>
IsGLine(G) == RZero(G[1])
GCenter(G) == VMul(RNeg(RHalf) // G[1], GB(G))
GR2(G) == N2(GCenter(G)) -- (G[4] // G[1])
\* the same curve (exactly): proportional coefficients
GSame(G, H) == \A i, j \in 1..4 : (G[i] ** H[j]) = (G[j] ** H[i])
GNormalT(G) == N2(GB(G)) -- (R4 ** (G[1] ** G[4]))       \* > 0 iff a real curve

\* a recorded circle or line is the curve G, up to tolerance
\* m: magnitude of the data, t: relative tolerance
MatchCircle(f, G, m, t) ==
  LET c == GCenter(G)
      r2 == GR2(G)
      mm == RMax(m, RMax(Mag(c), RAbs(f.r)))
  IN /\ RPos(f.r)
     /\ NearPT(f.c, c, mm, t)
     /\ IsSqrt(f.r, r2, t ** mm)
MatchLine(f, G, m, t) ==
  LET n == GB(G)
      v == VSub(f.B, f.A)
      mm == RMax(m, MagAll(<<f.A, f.B>>))
      onl(p) == RSq(Dot(n, p) ++ G[4]) \preceq (RSq(t ** mm) ** N2(n))
  IN /\ ~CZero(v) /\ onl(f.A) /\ onl(f.B)
     /\ RSq(Dot(n, v)) \preceq (RSq(t) ** (N2(n) ** N2(v)) ** RSq(R1 ++ (mm // RMax(Mag(v), Tol))))
IsFig(f) == f.t \in {"circle", "line"}
\* a circle or a line without an end
Whole(f) == f.t = "line" => (f.ea /\ f.eb)

\* ---- 2x2 and affine maps  <<a11,a12,a21,a22,b1,b2>> -----------------------
AffOf(e) == <<e.A[1][1], e.A[1][2], e.A[2][1], e.A[2][2], e.b[1], e.b[2]>>
AffApply(f, p) == <<(f[1] ** p[1]) ++ (f[2] ** p[2]) ++ f[5],
                    (f[3] ** p[1]) ++ (f[4] ** p[2]) ++ f[6]>>
AffLin(f, v) == <<(f[1] ** v[1]) ++ (f[2] ** v[2]), (f[3] ** v[1]) ++ (f[4] ** v[2])>>
AffDet(f) == (f[1] ** f[4]) -- (f[2] ** f[3])
AffComp(g, f) ==                                         \* g after f
  LET t == AffApply(g, <<f[5], f[6]>>)
  IN <<(g[1] ** f[1]) ++ (g[2] ** f[3]), (g[1] ** f[2]) ++ (g[2] ** f[4]),
       (g[3] ** f[1]) ++ (g[4] ** f[3]), (g[3] ** f[2]) ++ (g[4] ** f[4]), t[1], t[2]>>
AffInv(f) ==
  LET d == AffDet(f)
      a == f[4] // d   b == RNeg(f[2]) // d
      c == RNeg(f[3]) // d   e == f[1] // d
  IN <<a, b, c, e, RNeg((a ** f[5]) ++ (b ** f[6])), RNeg((c ** f[5]) ++ (e ** f[6]))>>
AffId == <<R1, R0, R0, R1, R0, R0>>

\* ---- conics  <<A,B,C,D,E,F>>: Ax^2+Bxy+Cy^2+Dx+Ey+F -----------------------
ConEval(q, p) == (q[1] ** RSq(p[1])) ++ (q[2] ** (p[1] ** p[2])) ++ (q[3] ** RSq(p[2]))
                 ++ (q[4] ** p[1]) ++ (q[5] ** p[2]) ++ q[6]
\* the ellipse |((p-c).u)/a|^2 + |((p-c).u')/b|^2 = 1, for a direction u of any length
ConOf(c, a2, b2, u) ==
  LET n == N2(u)
      A == ((a2 ** RSq(u[2])) ++ (b2 ** RSq(u[1]))) // n
      C == ((a2 ** RSq(u[1])) ++ (b2 ** RSq(u[2]))) // n
      B == (R2 ** ((b2 -- a2) ** (u[1] ** u[2]))) // n
  IN <<A, B, C, RNeg(R2 ** (A ** c[1])) -- (B ** c[2]),
       RNeg(B ** c[1]) -- (R2 ** (C ** c[2])),
       (A ** RSq(c[1])) ++ (B ** (c[1] ** c[2])) ++ (C ** RSq(c[2])) -- (a2 ** b2)>>
ConFig(f) == IF f.t = "circle" THEN ConOf(f.c, RSq(f.r), RSq(f.r), C1)
             ELSE ConOf(f.c, RSq(f.a), RSq(f.b), f.u)
ConSame(q, w) == \A i, j \in 1..6 : (q[i] ** w[j]) = (q[j] ** w[i])
\* normalized position of p: (p-c)' S (p-c), 1 on the ellipse
EllLevel(f, p) ==
  LET v == VSub(p, f.c)
      u == IF f.t = "circle" THEN C1 ELSE f.u
      a == IF f.t = "circle" THEN f.r ELSE f.a
      b == IF f.t = "circle" THEN f.r ELSE f.b
  IN (RSq(Dot(v, u)) // (RSq(a) ** N2(u))) ++ (RSq(Cross(u, v)) // (RSq(b) ** N2(u)))
=============================================================================
