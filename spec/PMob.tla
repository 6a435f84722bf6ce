-------------------------------- MODULE PMob --------------------------------
(* Moebius maps: P04 group action, P05 circles and lines, P06 maps from    *)
(* data, real powers, fixed points, cross-ratio.                           *)
EXTENDS PInv

\* ---- the model: 2x2 complex matrices <<a, b, c, d>> ----------------------
CAdd(z, w) == VAdd(z, w)
CSub(z, w) == VSub(z, w)
MMul(M, N) == <<CAdd(CMul(M[1], N[1]), CMul(M[2], N[3])), CAdd(CMul(M[1], N[2]), CMul(M[2], N[4])),
                CAdd(CMul(M[3], N[1]), CMul(M[4], N[3])), CAdd(CMul(M[3], N[2]), CMul(M[4], N[4]))>>
MDet(M) == CSub(CMul(M[1], M[4]), CMul(M[2], M[3]))
MAdj(M) == <<M[4], VNeg(M[2]), VNeg(M[3]), M[1]>>
MConj(M) == <<Conj(M[1]), Conj(M[2]), Conj(M[3]), Conj(M[4])>>
MId == <<C1, V0, V0, C1>>
MMag(M) == MagAll(M)
RECURSIVE MPowN(_, _)
MPowN(M, k) == IF k = 0 THEN MId ELSE MMul(M, MPowN(M, k - 1))
MPow(M, k) == IF k < 0 THEN MPowN(MAdj(M), -k) ELSE MPowN(M, k)
\* proportional matrices: the same map
MSame(M, N) == \A i, j \in 1..4 : CMul(M[i], N[j]) = CMul(M[j], N[i])
MSameT(M, N, S, t) ==
  /\ RPos(MMag(M))
  /\ \A i, j \in 1..4 : i < j => Mag(CSub(CMul(M[i], N[j]), CMul(M[j], N[i]))) \preceq (t ** (MMag(M) ** S))
\* the inversion with pole o and power k is  z |-> M conj(z)
InvMob(o, k) == <<o, <<k -- N2(o), R0>>, C1, VNeg(Conj(o))>>

\* the extended plane
Inf == [t |-> "inf"]
Fin(p) == [t |-> "pt", v |-> p]
MNum(M, p) == IF p.t = "inf" THEN M[1] ELSE CAdd(CMul(M[1], p.v), M[2])
MDen(M, p) == IF p.t = "inf" THEN M[3] ELSE CAdd(CMul(M[3], p.v), M[4])
MPt(M, p) == LET d == MDen(M, p) IN IF CZero(d) THEN Inf ELSE Fin(CDiv(MNum(M, p), d))
\* image of a generalized circle  A|z|^2 + Re(conj(beta) z) + D
MobG(M, G) ==
  LET a == M[1]  b == M[2]  c == M[3]  d == M[4]
      bb == <<G[2], RNeg(G[3])>>
      gb == CAdd(CSub(CMul(CMul(bb, d), Conj(a)), VMul(R2 ** G[1], CMul(d, Conj(b)))),
                 CSub(CMul(CMul(Conj(bb), Conj(b)), c), VMul(R2 ** G[4], CMul(c, Conj(a)))))
  IN <<(G[1] ** N2(d)) -- CMul(CMul(bb, d), Conj(c))[1] ++ (G[4] ** N2(c)), gb[1], RNeg(gb[2]),
       (G[1] ** N2(b)) -- CMul(CMul(bb, b), Conj(a))[1] ++ (G[4] ** N2(a))>>
CrossRatio(z1, z2, z3, z4) == CDiv(CMul(CSub(z1, z4), CSub(z3, z2)), CMul(CSub(z1, z2), CSub(z3, z4)))

\* numbers that floating-point arithmetic on small inputs treats exactly
Dyadic(x) == IsInteger(RInt(64) ** x) /\ RAbs(x) \preceq RInt(4096)
DyadicP(p) == Dyadic(p[1]) /\ Dyadic(p[2])
DyadicM(M) == \A i \in 1..4 : DyadicP(M[i])

\* ---- judging an image point: q recorded, p |-> M p ------------------------
ImgClauses(M, p, q, t, name) ==
  LET num == MNum(M, p)  den == MDen(M, p)
      mz == IF p.t = "inf" THEN R0 ELSE R2 ** Mag(p.v)
      sd == IF p.t = "inf" THEN Mag(M[3]) ELSE (Mag(M[3]) ** mz) ++ Mag(M[4])
      sn == IF p.t = "inf" THEN Mag(M[1]) ELSE (Mag(M[1]) ** mz) ++ Mag(M[2])
  IN IF CZero(den) THEN
       IF DyadicM(M) /\ (p.t = "inf" \/ DyadicP(p.v)) THEN Chk(q.t = "inf", name) ELSE SKIP("inexact pole")
     ELSE IF Mag(den) \preceq (T6 ** sd) THEN SKIP("near the pole")
     ELSE IF q.t # "pt" THEN {name}
     ELSE Chk(Mag(CSub(CMul(q.v, den), num)) \preceq (t ** (sn ++ (R2 ** (Mag(q.v) ** sd)))), name)
IllM(M) == Mag(MDet(M)) \prec (((Mag(M[1]) ** Mag(M[4])) ++ (Mag(M[2]) ** Mag(M[3]))) ** RFrac(1, 100000))

PostMobPt(e) == IF IllM(e.a[1].m) THEN SKIP("nearly singular")
                ELSE ImgClauses(e.a[1].m, e.a[2], e.r, Tol, "fractional-linear-value")
\* a map computed from others: r = << the map, its value at the point p >>
MapClauses(r, p, N, S, name) ==
  IF r[1].t # "mob" THEN {name}
  ELSE Chk(MSameT(r[1].m, N, S, Tol), name) \cup
       (LET w == ImgClauses(r[1].m, p, r[2], Tol, name \o "-value") IN IF IsSkipSet(w) THEN {} ELSE w)
PostMobComp(e) ==
  LET M == e.a[1].m  N == e.a[2].m
      P == IF e.a[3].v THEN MMul(N, M) ELSE MMul(M, N)
  IN IF IllM(M) \/ IllM(N) THEN SKIP("nearly singular")
     ELSE MapClauses(e.r.v, e.a[4], P, R4 ** (MMag(M) ** MMag(N)), "composite")
PostMobInverse(e) ==
  IF IllM(e.a[1].m) THEN SKIP("nearly singular")
  ELSE MapClauses(e.r.v, e.a[2], MAdj(e.a[1].m), MMag(e.a[1].m), "inverse")
IAbs(k) == IF k < 0 THEN -k ELSE k
ToInt(r) == CHOOSE i \in -12..12 : RInt(i) = r
PostMobPow(e) ==
  LET M == e.a[1].m  k == ToInt(e.a[2].v)
  IN IF IllM(M) THEN SKIP("nearly singular")
     ELSE MapClauses(e.r.v, e.a[3], MPow(M, k), RPow(R4 ** MMag(M), IAbs(k)), "power")
PostInvComp(e) ==
  LET i == e.a[1]  j == e.a[2]
      M == InvMob(i.o, i.k)  N == InvMob(j.o, j.k)
      P == IF e.a[3].v THEN MMul(N, MConj(M)) ELSE MMul(M, MConj(N))
      m == RScale(R1, RMax(Mag(i.o), Mag(j.o)))
  IN MapClauses(e.r.v, e.a[4], P, R4 ** (MMag(M) ** MMag(N)), "composite-of-inversions")

\* ---- P05 ------------------------------------------------------------------
PoleOf(M) == CDiv(VNeg(M[4]), M[3])
PoleGap(M, G, f, t) ==
  IF CZero(M[3]) THEN FALSE
  ELSE LET p == PoleOf(M)  m == RMax(Mag(p), FigMag(f)) IN ~OnG(G, p) /\ PoleGapWithin(p, G, m, t)
PostMobFig(e) ==
  LET M == e.a[1].m  f == e.a[2]  r == e.r  G == GFig(f)  H == MobG(M, G)
      m == FigMag(f)
      dy == DyadicM(M) /\ (IF f.t = "circle" THEN DyadicP(f.c) /\ Dyadic(f.r) ELSE DyadicP(f.A) /\ DyadicP(f.B))
      near == PoleGap(M, G, f, T4)
  IN IF IllM(M) THEN SKIP("nearly singular")
     ELSE IF near \/ (IsGLine(H) /\ ~dy) THEN
       \* too close to tell whether the pole is on the figure; if a line is
       \* returned, then the image must look like it
       IF ~IsFig(r) THEN {"not-a-figure"}
       ELSE IF r.t = "line" /\ (IsGLine(H) \/ PoleGap(M, G, f, Eps11)) THEN Chk(LineNearG(r, H), "image-set")
       ELSE SKIP("pole near the figure")
     ELSE IF ~IsFig(r) THEN {"not-a-figure"}
     ELSE IF (r.t = "line") # IsGLine(H) THEN {"line-iff-through-pole"}
     ELSE Chk(MatchFig(r, H, RScale(R1, RMax(m, FigMag(r))), T6), "image-set")
          \cup (IF Whole(f) THEN Chk(Whole(r), "whole-line") ELSE {})

\* ---- P06 ------------------------------------------------------------------
Sends(M, p, q) ==
  LET num == MNum(M, p)  den == MDen(M, p)
      mz == IF p.t = "inf" THEN R0 ELSE R1 ++ (R2 ** Mag(p.v))
      sd == IF p.t = "inf" THEN MMag(M) ELSE (Mag(M[3]) ** mz) ++ Mag(M[4])
      sn == IF p.t = "inf" THEN MMag(M) ELSE (Mag(M[1]) ** mz) ++ Mag(M[2])
  IN IF q.t = "inf" THEN Mag(den) \preceq (T6 ** sd) /\ RPos(Mag(num))
     ELSE /\ RPos(Mag(den))
          /\ Mag(CSub(CMul(q.v, den), num)) \preceq (T6 ** (sn ++ (R2 ** (Mag(q.v) ** sd))))
Close(p, q) == p.t = "pt" /\ q.t = "pt" /\
               Mag(VSub(p.v, q.v)) \preceq (RFrac(1, 100000) ** RMax(RMax(Mag(p.v), Mag(q.v)), RFrac(1, 10)))
PostMob3(e) ==
  LET r == e.r  P == SubSeq(e.a, 1, 3)  Q == SubSeq(e.a, 4, 6) IN
  IF \E i, j \in 1..3 : i < j /\ (Close(P[i], P[j]) \/ Close(Q[i], Q[j])) THEN SKIP("nearly equal points")
  ELSE IF r.t # "mob" THEN {"no-map"}
  ELSE Chk(RPos(Mag(MDet(r.m))), "singular") \cup
       Chk(\A i \in 1..3 : Sends(r.m, P[i], Q[i]), "sends-sources-to-targets")
PostMobCirc(e) ==
  LET f == e.a[1]  g == e.a[2]  r == e.r IN
  IF r.t # "mob" THEN {"no-map"}
  ELSE LET H == MobG(r.m, GFig(f)) IN
       Chk(RPos(Mag(MDet(r.m))) /\ ~IsGLine(H) /\ MatchFig(g, H, FigMag(g), Eps10 ** (RSq(FigMag(f) // f.r) ** (FigMag(g) // g.r))), "maps-circle-to-circle")
\* mob.gpow : M, p, q, s  ->  << M^(p/q), M^s, M^(p/q + s) >>
Disc(M) == CSub(CMul(CAdd(M[1], M[4]), CAdd(M[1], M[4])), VMul(R4, MDet(M)))
PostGPow(e) ==
  LET M == e.a[1].m  p == ToInt(e.a[2].v)  q == ToInt(e.a[3].v)  r == e.r.v
      mm == MMag(M)
  IN IF IllM(M) THEN SKIP("nearly singular")
     ELSE IF \E i \in 1..3 : r[i].t # "mob" THEN {"no-map"}
     ELSE LET A == r[1].m  B == r[2].m  C == r[3].m
              Aq == MPow(A, q)
          IN Chk(MSameT(Aq, MPow(M, p), RMax(RPow(R4 ** mm, IAbs(p)), RPow(R4 ** MMag(A), q)), T6), "agrees-with-integer-powers")
             \cup Chk(MSameT(C, MMul(A, B), R4 ** (MMag(A) ** MMag(B)), T6), "exponents-add")
PostFixed(e) ==
  LET M == e.a[1].m  a == M[1]  b == M[2]  c == M[3]  d == M[4]  r == e.r
      ad == CSub(a, d)
      D == CAdd(CMul(ad, ad), VMul(R4, CMul(b, c)))
      mm == MMag(M)
      \* z is a root of c z^2 - (a - d) z - b
      ok(z) == Mag(CSub(CMul(z, CSub(CMul(c, z), ad)), b))
               \preceq ((Tol ** ((Mag(c) ** RSq(Mag(z))) ++ ((Mag(a) ++ Mag(d)) ** Mag(z)) ++ Mag(b))) ++ (Eps10 ** mm))
  IN IF IllM(M) THEN SKIP("nearly singular")
     ELSE IF CZero(c) THEN
       IF CZero(ad) THEN (IF CZero(b) THEN Chk(r.t = "none", "identity") ELSE Chk(r.t = "inf", "translation"))
       ELSE Chk(r.t = "pt" /\ ok(r.v), "fixed-points")
     ELSE IF r.t = "pt" THEN Chk(Mag(D) \preceq (Eps10 ** RSq(mm)) /\ ok(r.v), "fixed-points")
     ELSE IF r.t # "list" \/ (CZero(D) /\ DyadicM(M)) THEN {"fixed-points"}
     ELSE IF Len(r.v) # 2 \/ \E i \in 1..Len(r.v) : r.v[i].t # "pt" THEN {"fixed-points"}
     ELSE LET p == r.v[1].v  q == r.v[2].v IN
          Chk(ok(p) /\ ok(q), "fixed-points")
          \cup Chk(Mag(CSub(CMul(c, CAdd(p, q)), ad)) \preceq (T6 ** ((Mag(c) ** (Mag(p) ++ Mag(q))) ++ Mag(a) ++ Mag(d))), "fixed-points-sum")
          \cup (IF Mag(D) \preceq (T6 ** RSq(mm)) THEN {} ELSE Chk(~NearPT(p, q, RMax(Mag(p), Mag(q)), Tol), "two-distinct"))
NearPair(s) == \E i, j \in 1..4 : i < j /\ Mag(VSub(s[i], s[j])) \preceq (RFrac(1, 50000) ** (RFrac(1, 10) ++ MagAll(s)))
\* cross : A, B, C, D -> complex
CxOf(r) == IF r.t = "cx" THEN r.v ELSE IF r.t = "num" THEN <<r.v, R0>> ELSE V0
PostCross(e) ==
  LET s == [i \in 1..4 |-> e.a[i].v]  r == e.r IN
  IF NearPair(s) THEN SKIP("nearly equal points")
  ELSE IF r.t \notin {"cx", "num"} THEN {"not-a-number"}
  ELSE LET z == CrossRatio(s[1], s[2], s[3], s[4]) IN
       Chk(Mag(CSub(CxOf(r), z)) \preceq (Tol ** (R1 ++ Mag(z))), "cross-ratio-value")
       \cup Chk(RZero(z[2]) => RAbs(CxOf(r)[2]) \preceq (Tol ** (R1 ++ Mag(z))), "real-on-circle")
\* cross.mob : M, A, B, C, D -> cross-ratio of the images
PostCrossMob(e) ==
  LET M == e.a[1].m  s == [i \in 1..4 |-> e.a[i + 1].v]  r == e.r
      im == [i \in 1..4 |-> MPt(M, Fin(s[i]))]
      bad == \E i \in 1..4 : Mag(MDen(M, Fin(s[i]))) \preceq (RFrac(1, 50) ** MMag(M))
  IN IF NearPair(s) \/ bad \/ IllM(M) THEN SKIP("nearly equal points or a pole")
     ELSE IF NearPair([i \in 1..4 |-> im[i].v]) THEN SKIP("nearly equal images")
     ELSE IF r.t \notin {"cx", "num"} THEN {"not-a-number"}
     ELSE LET z == CrossRatio(s[1], s[2], s[3], s[4]) IN
          Chk(Mag(CSub(CxOf(r), z)) \preceq (T6 ** (R1 ++ Mag(z))), "cross-ratio-invariant")

PMobOps == {"mob.pt", "mob.comp", "mob.inv", "mob.pow", "inv.comp", "mob.circle", "mob.line",
            "mob.3pts", "mob.circ", "mob.gpow", "mob.fixed", "cross", "cross.mob"}
PostMob(e) ==
  CASE e.op = "mob.pt" -> PostMobPt(e)
    [] e.op = "mob.comp" -> PostMobComp(e)
    [] e.op = "mob.inv" -> PostMobInverse(e)
    [] e.op = "mob.pow" -> PostMobPow(e)
    [] e.op = "inv.comp" -> PostInvComp(e)
    [] e.op \in {"mob.circle", "mob.line"} -> PostMobFig(e)
    [] e.op = "mob.3pts" -> PostMob3(e)
    [] e.op = "mob.circ" -> PostMobCirc(e)
    [] e.op = "mob.gpow" -> PostGPow(e)
    [] e.op = "mob.fixed" -> PostFixed(e)
    [] e.op = "cross" -> PostCross(e)
    [] e.op = "cross.mob" -> PostCrossMob(e)
=============================================================================
