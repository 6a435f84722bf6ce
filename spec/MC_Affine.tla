------------------------------ MODULE MC_Affine ------------------------------
(***************************************************************************)
(* Figures under words of affine maps, exactly: reflections, projections,  *)
(* rotations, homotheties, scalings, shears and general maps with rational *)
(* coefficients.  A state is the word's product map, a figure carried      *)
(* along map by map and the figure the word started from.                  *)
(***************************************************************************)
EXTENDS PAff, Scen
CONSTANTS Depth, Wide, Scenarios

Ang(c, s) == [v |-> R0, c |-> c, s |-> s, rad |-> R0]
Refl(A, B) == [t |-> "refl", A |-> A, B |-> B]
Proj(A, B, P, Q, o) == [t |-> "proj", A |-> A, B |-> B, P |-> P, Q |-> Q, orth |-> o]
Rot(o, c, s) == [t |-> "rot", o |-> o, th |-> Ang(c, s), u |-> <<c, s>>]
Shr(o, w, k, c, s) == [t |-> "shear", o |-> o, w |-> w, k |-> k, th |-> Ang(c, s), u |-> <<c, s>>]
Scl(o, w, k) == [t |-> "scal", o |-> o, w |-> w, k |-> k]
Sxy(o, x, y) == [t |-> "sxy", o |-> o, sx |-> x, sy |-> y]
Hom(o, k) == [t |-> "hom", o |-> o, k |-> k]
Q(p, q) == RFrac(p, q)
P0 == IPt(0, 0)
P1 == IPt(1, -2)
MapsA == {Refl(P0, IPt(1, 0)), Refl(IPt(1, 1), IPt(3, 2)), Refl(IPt(-1, 0), IPt(-1, 2)),
          Rot(P0, R0, R1), Rot(P1, Q(3, 5), Q(-4, 5)), Rot(IPt(2, 1), Q(-5, 13), Q(12, 13)),
          Hom(P1, RInt(2)), Hom(IPt(0, 1), Q(-1, 2)), Scl(P1, IPt(1, 0), RInt(3)), Scl(IPt(0, 2), IPt(3, 4), Q(-1, 2)),
          Sxy(P1, RInt(2), RInt(-1)), Shr(P1, IPt(1, 0), RInt(2), Q(3, 5), Q(4, 5)), Shr(P0, IPt(1, 2), Q(1, 2), Q(12, 13), Q(-5, 13)),
          vAff(<<RInt(1), RInt(2), RInt(-1), RInt(1), RInt(3), RInt(0)>>)}
MapsP == {Proj(P0, IPt(1, 1), P0, IPt(-1, 1), TRUE), Proj(IPt(0, 1), IPt(3, 2), P0, IPt(1, 2), FALSE),
          Proj(IPt(1, 0), IPt(1, 4), P0, IPt(2, 1), FALSE), Sxy(IPt(2, 0), R0, R1), Hom(P1, R0), Scl(P0, IPt(1, 1), R0),
          vAff(<<RInt(1), RInt(2), RInt(2), RInt(4), RInt(1), RInt(1)>>)}
Extra == {Refl(IPt(0, 3), IPt(2, -1)), Rot(IPt(-1, -1), Q(-4, 5), Q(-3, 5)), Scl(IPt(1, 1), IPt(-1, 2), RInt(-2)),
          Shr(IPt(2, 2), IPt(-2, 1), R1, Q(4, 5), Q(-3, 5)), vAff(<<RInt(0), RInt(-2), RInt(1), RInt(3), RInt(-1), RInt(2)>>)}
Maps == MapsA \cup MapsP \cup (IF Wide THEN Extra ELSE {})
Span == IF Wide THEN 2 ELSE 1
Pts == {[t |-> "pt", v |-> IPt(x, y)] : x, y \in -Span..Span}
Ells == {[t |-> "circle", c |-> c, r |-> r] : c \in {P0, IPt(2, -1)}, r \in {R1, R2}}
    \cup {[t |-> "ell", c |-> c, a |-> R3, b |-> b, u |-> u, al |-> R0, deg |-> TRUE] :
            c \in {P0, IPt(-1, 2)}, b \in {R1, R2}, u \in {IPt(1, 0), IPt(0, 1), IPt(3, 4), IPt(-5, 12)}}
Lins == {[t |-> "line", A |-> a, B |-> VAdd(a, d), ea |-> x, eb |-> y] :
            a \in {P0, IPt(1, -1)}, d \in {IPt(1, 0), IPt(0, 2), IPt(2, -1)}, x \in {TRUE}, y \in BOOLEAN}

\* figures in motion
Start(f) == IF f.t = "pt" THEN f ELSE IF f.t = "line" THEN [t |-> "seg", A |-> f.A, B |-> f.B]
            ELSE [t |-> "e", c |-> f.c, S |-> Cov(f)]
Act(A, f) == CASE f.t = "pt" -> [t |-> "pt", v |-> AffApply(A, f.v)]
               [] f.t = "seg" -> [t |-> "seg", A |-> AffApply(A, f.A), B |-> AffApply(A, f.B)]
               [] f.t = "e" -> [t |-> "e", c |-> AffApply(A, f.c), S |-> CovImg(A, f.S)]
VARIABLES orig, cur, W, last, depth
vars == <<orig, cur, W, last, depth>>
None == [t |-> "none"]
Init == orig \in Pts \cup Ells \cup Lins /\ cur = Start(orig) /\ W = AffId /\ last = None /\ depth = 0
Step(f) == /\ cur' = Act(MapOf(f), cur) /\ W' = AffComp(MapOf(f), W) /\ last' = f
           /\ depth' = depth + 1 /\ orig' = orig
Next == depth < Depth /\ \E f \in Maps : Step(f)

\* ---- laws -----------------------------------------------------------------
Homomorphism == cur = Act(W, Start(orig))
Undo == ~RZero(AffDet(W)) => Act(AffInv(W), cur) = Start(orig)
Rim == {<<Q(3, 5), Q(4, 5)>>, <<Q(-5, 13), Q(12, 13)>>, <<R0, RNeg(R1)>>, <<RNeg(R1), R0>>}
RimPt(f, u) == IF f.t = "circle" THEN VAdd(f.c, VMul(f.r, u))
               ELSE LET n == IF f.u = IPt(3, 4) THEN RInt(5) ELSE IF f.u = IPt(-5, 12) THEN RInt(13) ELSE R1
                    IN VAdd(f.c, VAdd(VMul((f.a ** u[1]) // n, f.u), VMul((f.b ** u[2]) // n, Perp(f.u))))
\* the image ellipse carries the images of the points, and only an invertible word keeps it an ellipse
Incidence == cur.t = "e" =>
   /\ (RZero(CovDet(cur.S)) <=> RZero(AffDet(W)))
   /\ ~RZero(AffDet(W)) => \A u \in Rim : CovLevel(cur.S, VSub(AffApply(W, RimPt(orig, u)), cur.c)) = R1
AreaLaw == cur.t = "e" => CovDet(cur.S) = RSq(AffDet(W)) ** CovDet(Cov(orig))
\* the defining law of every named map, on points
Law(f, p) ==
  LET A == MapOf(f)  q == AffApply(A, p)  v == VSub(q, p) IN
  CASE f.t = "refl" -> /\ AffApply(A, q) = p /\ RZero(Dot(v, VSub(f.B, f.A)))
                       /\ RZero(Cross(VSub(Mid(p, q), f.A), VSub(f.B, f.A)))
    [] f.t = "proj" -> /\ AffApply(A, q) = q /\ RZero(Cross(VSub(q, f.A), VSub(f.B, f.A)))
                       /\ RZero(Cross(v, IF f.orth THEN Perp(VSub(f.B, f.A)) ELSE VSub(f.Q, f.P)))
    [] f.t = "rot" -> LET x == VSub(p, f.o)  y == VSub(q, f.o)
                      IN N2(x) = N2(y) /\ Dot(x, y) = (f.th.c ** N2(x)) /\ Cross(x, y) = (f.th.s ** N2(x))
    [] f.t = "hom" -> VSub(q, f.o) = VMul(f.k, VSub(p, f.o))
    [] f.t = "scal" -> LET x == VSub(p, f.o)  y == VSub(q, f.o)
                       IN Dot(y, f.w) = (f.k ** Dot(x, f.w)) /\ Cross(y, f.w) = Cross(x, f.w)
    [] f.t = "sxy" -> /\ (q[1] -- f.o[1]) = (f.sx ** (p[1] -- f.o[1]))
                      /\ (q[2] -- f.o[2]) = (f.sy ** (p[2] -- f.o[2]))
    [] f.t = "shear" ->
         LET wt == VMul(f.k, Perp(f.w))  tn == f.th.s // f.th.c IN
         /\ AffApply(A, VAdd(f.o, wt)) = VAdd(f.o, wt) /\ AffApply(A, f.o) = f.o
         /\ AffApply(A, VAdd(f.o, f.w)) = VAdd(VAdd(f.o, f.w), VMul(tn // RSq(f.k), wt))
         /\ RZero(Cross(v, wt)) /\ AffDet(A) = R1
    [] OTHER -> TRUE
Laws == last.t # "none" /\ orig.t = "pt" /\ depth = 1 => Law(last, orig.v)

\* ---- the post-conditions accept the exact outcome and refuse wrong ones ---
Ev(op, a, r) == [i |-> 0, op |-> op, a |-> a, r |-> r]
M3(A) == [t |-> "mat", n |-> 3, m |-> 3, v |-> <<<<A[1], A[2], A[5]>>, <<A[3], A[4], A[6]>>, <<R0, R0, R1>>>>]
Rows == [t |-> "mat", n |-> 2, m |-> 2, v |-> <<IPt(1, 2), IPt(-3, 5)>>]
Good(A, p) == [t |-> "multi", v |-> <<[t |-> "pt", v |-> AffApply(A, p)],
                 [t |-> "mat", n |-> 2, m |-> 2, v |-> <<AffApply(A, Rows.v[1]), AffApply(A, Rows.v[2])>>],
                 M3(A), vAff(A), [t |-> "pt", v |-> AffApply(A, p)]>>]
Conform ==
  depth = 1 /\ orig.t = "pt" =>
    LET A == MapOf(last)  z == [vAff(A) EXCEPT !.b = VAdd(@, <<T4 ** (R1 ++ AffMag(A)) ** RInt(10), R0>>)]
        gd == Good(A, orig.v)
    IN /\ PostAff(Ev("map.law", <<last, orig, Rows>>, gd)) = {}
       /\ "as-affine" \in PostAff(Ev("map.law", <<last, orig, Rows>>, [gd EXCEPT !.v = [@ EXCEPT ![4] = z]]))
       /\ "rows-image" \in PostAff(Ev("map.law", <<last, orig, Rows>>,
              [gd EXCEPT !.v = [@ EXCEPT ![2] = [@ EXCEPT !.v = <<@[2], @[1]>>]]]))
          \/ AffApply(A, Rows.v[1]) = AffApply(A, Rows.v[2])
\* rigid images and images of circles along the axes are ellipses with rational data
ConformFig ==
  depth = 1 /\ orig.t = "ell" /\ last.t = "rot" =>
    LET A == MapOf(last)
        im == [orig EXCEPT !.c = AffApply(A, @), !.u = AffLin(A, @)]
        bad == [orig EXCEPT !.c = AffApply(A, @), !.u = AffLin(A, Perp(@))]
        neg == [im EXCEPT !.a = orig.b, !.b = orig.a, !.u = Perp(@)]
    IN /\ PostAff(Ev("fig", <<last, orig>>, im)) = {}
       /\ "image-set" \in PostAff(Ev("fig", <<last, orig>>, bad))
       /\ PostAff(Ev("fig", <<last, orig>>, neg)) = {"major-is-longer", "image-set"}
ConformComp ==
  depth = 2 /\ orig.t = "pt" /\ orig.v = P0 =>
    LET B == MapOf(last)  A == AffComp(AffInv(B), W) IN
    RZero(AffDet(B)) \/
    /\ PostAff(Ev("aff.comp", <<vAff(A), vAff(B), vBool(TRUE)>>, vAff(W))) = {}
    /\ AffComp(A, B) = W \/ PostAff(Ev("aff.comp", <<vAff(A), vAff(B), vBool(FALSE)>>, vAff(W))) # {}

\* ---- scenarios ------------------------------------------------------------
vRows == [t |-> "mat", v |-> <<IPt(1, 2), IPt(-3, 5)>>]
Meth(f, x) == CASE f.t = "rot" -> IF x.t = "circle" THEN "rotate_circle" ELSE IF x.t = "line" THEN "rotate_line" ELSE "rotate_ellipse"
                [] f.t = "refl" -> IF x.t = "circle" THEN "reflect_circle" ELSE IF x.t = "line" THEN "reflect_line" ELSE "none"
                [] f.t = "hom" -> IF x.t = "circle" THEN "transform_circle" ELSE "none"
                [] f.t = "scal" -> IF x.t = "circle" THEN "scale_circle" ELSE "none"
                [] f.t = "aff" -> IF x.t = "line" THEN "transform_line" ELSE "transform_ellipse"
                [] OTHER -> "none"
Out ==
  IF ~Scenarios \/ depth = 0 THEN TRUE
  ELSE IF orig.t = "pt" THEN
    /\ depth = 1 => Emit(IF last.t = "aff" THEN "aff.app" ELSE "map.law", <<last, orig, IF last.t \in {"refl", "proj"} THEN vNone ELSE vRows>>)
    /\ Emit("aff.app", <<vAff(W), orig, vRows>>)
    /\ orig.v = P0 => Emit("aff.inv", <<vAff(W)>>)
    /\ orig.v = P0 /\ depth = 2 /\ ~RZero(AffDet(MapOf(last))) =>
         LET A == AffComp(AffInv(MapOf(last)), W) IN
         Emit("aff.comp", <<vAff(A), vAff(MapOf(last)), vBool(TRUE)>>) /\ Emit("aff.comp", <<vAff(MapOf(last)), vAff(A), vBool(FALSE)>>)
    /\ orig.v = P0 => LET s == <<IPt(0, 0), IPt(2, 1), IPt(-1, 3)>>  I(p) == vPt(AffApply(W, p)) IN
         Emit("aff.3pts", <<vPt(s[1]), vPt(s[2]), vPt(s[3]), I(s[1]), I(s[2]), I(s[3])>>)
  ELSE /\ Emit(IF orig.t = "line" THEN "aff.line" ELSE "fig", <<vAff(W), orig, vStr(IF orig.t = "line" THEN "transform_line" ELSE "transform_ellipse")>>)
       /\ depth = 1 /\ Meth(last, orig) # "none" => Emit("fig", <<last, orig, vStr(Meth(last, orig))>>)
OutPairs ==
  IF ~Scenarios \/ depth # 0 \/ orig.t \notin {"circle", "ell"} THEN TRUE
  ELSE \A y \in Ells : Emit("aff.ell2", <<orig, y>>)
=============================================================================
