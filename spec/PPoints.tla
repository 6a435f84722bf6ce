------------------------------ MODULE PPoints ------------------------------
(* P23: random points in or on a circle, an ellipse or a triangle.         *)
EXTENDS PUni
\* rpts : figure, n, where, seed -> matrix
CentreOf(f) == f.c
\* the axes through the centre: the coordinate axes and the axes of the ellipse
Axes(f) == IF f.t = "ell" THEN <<C1, Perp(C1), f.u, Perp(f.u)>> ELSE <<C1, Perp(C1)>>
BothSides(f, P) == LET A == Axes(f) IN
  \A k \in 1..Len(A) : (\E i \in 1..Len(P) : RPos(Cross(A[k], VSub(P[i], f.c)))) /\ (\E i \in 1..Len(P) : RNegv(Cross(A[k], VSub(P[i], f.c))))
PointsRound(f, P, where) ==
  LET k == IF f.t = "ell" THEN RSq(EA(f) // EB(f)) ELSE R1
      \* the last term: rounding of the coordinates of the points
      t == (Eps10 ** k) ++ (Eps10 ** (Mag(f.c) // (IF f.t = "ell" THEN EB(f) ELSE f.r)))
      lev == [i \in 1..Len(P) |-> EllLevel(f, P[i])]
  IN (IF where = "in" THEN Chk(\A i \in 1..Len(P) : lev[i] \preceq (R1 ++ t), "inside")
                           \cup (IF Len(P) < 120 THEN {} ELSE Chk((\E i \in 1..Len(P) : lev[i] \preceq RHalf) /\ \E i \in 1..Len(P) : RHalf \preceq lev[i], "near-the-centre-and-far-from-it"))
      ELSE Chk(\A i \in 1..Len(P) : RAbs(lev[i] -- R1) \preceq t, "on-the-boundary"))
     \cup (IF Len(P) < 60 THEN {} ELSE Chk(BothSides(f, P), "on-both-sides-of-the-axes"))
\* the side opposite to vertex j: barycentric coordinate j vanishes
PointsTri(t, P, where) ==
  LET b == [i \in 1..Len(P) |-> Bary(t, P[i])]
      tol == T6 ** (RSq(TMag(t)) // RAbs(T2Area(t)))
      inside(i) == \A j \in 1..3 : RNeg(tol) \preceq b[i][j]
      side(i, j) == RAbs(b[i][j]) \preceq tol
      V == TV(t)
      \* squared lengths; the side j has at least a sixth of the perimeter if three times ... it is not far shorter than the longest
      l2 == [j \in 1..3 |-> D2(V[(j % 3) + 1], V[((j + 1) % 3) + 1])]
      mx == RMaxSeq(l2)
  IN IF where = "in" THEN Chk(\A i \in 1..Len(P) : inside(i), "inside")
                         \cup (IF Len(P) < 200 THEN {} ELSE Chk(\A j \in 1..3 : \E i \in 1..Len(P) : RHalf \preceq b[i][j], "near-each-vertex"))
     ELSE Chk(\A i \in 1..Len(P) : inside(i) /\ \E j \in 1..3 : side(i, j), "on-the-boundary")
          \cup (IF Len(P) < 300 THEN {} ELSE Chk(\A j \in 1..3 : (mx \preceq (RInt(16) ** l2[j])) => \E i \in 1..Len(P) : side(i, j), "on-every-side"))
PostPoints(e) ==
  LET f == e.a[1]  n == IntOf(e.a[2])  w == e.a[3].v  r == e.r IN
  IF w \notin {"in", "on"} THEN Chk(r.t = "raise", "other-modes-refused")
  ELSE IF r.t # "mat" THEN {"matrix-of-points"}
  ELSE IF r.n # n \/ r.m # 2 THEN {"as-many-rows-as-requested-and-two-columns"}
  ELSE IF f.t = "tri" THEN (IF FlatTri(f) THEN SKIP("nearly flat triangle") ELSE PointsTri(f, r.v, w))
  ELSE PointsRound(f, r.v, w)
PPointsOps == {"rpts"}
=============================================================================
