------------------------------ MODULE MC_Mobius ------------------------------
(***************************************************************************)
(* The extended plane under words of Moebius maps, exactly.  A state is a  *)
(* word (its product matrix), a figure carried along letter by letter and  *)
(* the figure the word started from.                                       *)
(***************************************************************************)
EXTENDS PMob, Scen
CONSTANTS Depth, Scenarios, Wide

Z(x, y) == IPt(x, y)
Gens0 == {<<C1, Z(2, -1), V0, C1>>,                 \* translation
         <<Z(0, 2), V0, V0, C1>>,                   \* rotation and scaling
         <<V0, C1, C1, V0>>,                        \* 1/z
         <<Z(1, 1), Z(0, 1), Z(1, 0), Z(1, -1)>>,
         <<Z(2, 0), Z(1, 0), Z(0, 1), Z(1, 1)>>}
Gens1 == {<<C1, V0, Z(2, 0), C1>>, <<Z(3, 0), Z(-1, 2), Z(1, 1), Z(0, 1)>>, <<C1, Z(-1, 0), C1, C1>>}
Gens == IF Wide THEN Gens0 \cup Gens1 ELSE Gens0
Span == IF Wide THEN 2 ELSE 1
Grid == {IPt(x, y) : x, y \in -Span..Span}
Figs == {[t |-> "pt", v |-> p] : p \in Grid} \cup {Inf}
   \cup {[t |-> "circle", c |-> c, r |-> r] : c \in {p \in Grid : p[1] \in {R0, R1, RInt(-1)}}, r \in {R1, R2}}
   \cup {[t |-> "line", A |-> a, B |-> VAdd(a, d), ea |-> TRUE, eb |-> TRUE] :
           a \in {IPt(0, 0), IPt(-1, 1), IPt(1, -1)}, d \in {IPt(1, 0), IPt(0, 1), IPt(2, -1), IPt(1, 1)}}

VARIABLES orig, cur, M, last, depth
vars == <<orig, cur, M, last, depth>>
Start(f) == IF f.t \in {"pt", "inf"} THEN f ELSE [t |-> "g", G |-> GFig(f)]
Act(g, f) == IF f.t = "g" THEN [t |-> "g", G |-> MobG(g, f.G)] ELSE MPt(g, f)
Same(x, y) == IF x.t = "g" THEN y.t = "g" /\ GSame(x.G, y.G) ELSE x = y

Init == orig \in Figs /\ cur = Start(orig) /\ M = MId /\ last = MId /\ depth = 0
Step(g) == /\ cur' = Act(g, cur) /\ M' = MMul(g, M) /\ last' = g
           /\ depth' = depth + 1 /\ orig' = orig
Next == depth < Depth /\ \E g \in Gens : Step(g) \/ Step(MAdj(g))

\* ---- laws -----------------------------------------------------------------
\* letter by letter = product matrix;  the adjugate undoes;  powers add
Homomorphism == Same(cur, Act(M, Start(orig)))
Undo == Same(Act(MAdj(M), cur), Start(orig)) /\ Same(Act(MAdj(last), Act(last, cur)), cur)
Powers == depth = 1 => \A j, k \in -2..2 : MSame(MMul(MPow(M, j), MPow(M, k)), MPow(M, j + k))
Unit == {<<RFrac(3, 5), RFrac(4, 5)>>, <<RFrac(-5, 13), RFrac(12, 13)>>, <<R0, RNeg(R1)>>}
PtsOf(f) == IF f.t = "circle" THEN {VAdd(f.c, VMul(f.r, u)) : u \in Unit}
            ELSE {VAdd(f.A, VMul(k, VSub(f.B, f.A))) : k \in {RInt(-2), R0, RFrac(1, 3)}}
Incidence == cur.t = "g" =>
  /\ RPos(GNormalT(cur.G))
  /\ \A p \in PtsOf(orig) : LET q == MPt(M, Fin(p)) IN
        IF q.t = "pt" THEN OnG(cur.G, q.v) ELSE IsGLine(cur.G)
  /\ IsGLine(cur.G) <=> (IF CZero(M[3]) THEN orig.t = "line" ELSE OnG(GFig(orig), CDiv(VNeg(M[4]), M[3])))
\* two inversions in a row are a Moebius map; the cross-ratio is invariant
Invs == {<<IPt(0, 0), RInt(4)>>, <<IPt(1, 2), RInt(-2)>>, <<IPt(-1, 0), RInt(9)>>}
InvW(i, p) == IF p.t = "inf" THEN Fin(i[1]) ELSE IF p.v = i[1] THEN Inf ELSE Fin(InvPt(i[1], i[2], p.v))
TwoInversions == depth = 0 /\ orig.t \in {"pt", "inf"} => \A i, j \in Invs :
  MPt(MMul(InvMob(j[1], j[2]), MConj(InvMob(i[1], i[2]))), orig) = InvW(j, InvW(i, orig))
Quad == <<IPt(0, 0), IPt(3, 1), IPt(1, 2), IPt(-1, 1)>>
Cocyclic == <<IPt(5, 0), IPt(3, 4), IPt(-4, 3), IPt(0, -5)>>
CrossLaw == depth >= 1 /\ orig.t = "inf" =>
  \A q \in {Quad, Cocyclic} : (\A i \in 1..4 : MPt(M, Fin(q[i])).t = "pt") =>
     CrossRatio(MPt(M, Fin(q[1])).v, MPt(M, Fin(q[2])).v, MPt(M, Fin(q[3])).v, MPt(M, Fin(q[4])).v)
       = CrossRatio(q[1], q[2], q[3], q[4])
ASSUME CrossReal ==
   RZero(CrossRatio(Cocyclic[1], Cocyclic[2], Cocyclic[3], Cocyclic[4])[2])
             /\ ~RZero(CrossRatio(Quad[1], Quad[2], Quad[3], Quad[4])[2])

\* ---- the post-conditions accept the exact outcome and refuse wrong ones ---
E1(op, a, r) == [i |-> 0, op |-> op, a |-> a, r |-> r]
AsFig(G, f) ==
  IF IsGLine(G) THEN LET n == GB(G)  p == VMul(RNeg(G[4]) // N2(n), n)
                     IN [t |-> "line", A |-> p, B |-> VAdd(p, Perp(n)), ea |-> TRUE, eb |-> TRUE]
  ELSE [t |-> "circle", c |-> GCenter(G), r |-> R0]
Conform ==
  depth >= 1 =>
    IF orig.t \in {"pt", "inf"} THEN
      LET ok == PostMob(E1("mob.pt", <<vMob(M), orig>>, cur)) IN
      /\ Accepted(ok)
      /\ IsSkip(ok) \/ cur.t = "inf"
         \/ Rejected(PostMob(E1("mob.pt", <<vMob(M), orig>>, [cur EXCEPT !.v = VAdd(@, VMul(T4 ** (R1 ++ Mag(cur.v)), <<R1, R1>>))])))
    ELSE IF ~IsGLine(cur.G) THEN TRUE
    ELSE LET r == AsFig(cur.G, orig)
             op == IF orig.t = "circle" THEN "mob.circle" ELSE "mob.line"
             ok == PostMob(E1(op, <<vMob(M), orig>>, r))
         IN /\ Accepted(ok)
            /\ IsSkip(ok) \/ Rejected(PostMob(E1(op, <<vMob(M), orig>>,
                  [r EXCEPT !.B = VAdd(@, VMul(TR, Perp(VSub(r.B, r.A))))])))
\* the circle with the reciprocal scalings of z |-> wz+t has a rational radius; wrong matrices are refused
ConformMap ==
  depth = 2 /\ orig.t = "inf" =>
    LET N == MAdj(last)  \* M = last * previous
        prev == MMul(N, M)
        ok == PostMob(E1("mob.comp", <<vMob(prev), vMob(last), vBool(TRUE), Inf>>,
                         [t |-> "multi", v |-> <<vMob(M), cur>>]))
        no == PostMob(E1("mob.comp", <<vMob(prev), vMob(last), vBool(FALSE), Inf>>,
                         [t |-> "multi", v |-> <<vMob(M), cur>>]))
    IN Accepted(ok) /\ (IsSkip(ok) \/ MSame(MMul(prev, last), M) \/ Rejected(no))

Out ==
  IF ~Scenarios \/ depth = 0 THEN TRUE
  ELSE IF orig.t = "circle" THEN Emit("mob.circle", <<vMob(M), orig>>)
  ELSE IF orig.t = "line" THEN Emit("mob.line", <<vMob(M), orig>>)
  ELSE /\ Emit("mob.pt", <<vMob(M), orig>>)
       /\ Emit("mob.comp", <<vMob(MMul(MAdj(last), M)), vMob(last), vBool(TRUE), orig>>)
       /\ Emit("mob.comp", <<vMob(last), vMob(MMul(MAdj(last), M)), vBool(FALSE), orig>>)
       /\ Emit("mob.inv", <<vMob(M), orig>>)
       /\ IF depth = 1 THEN \A k \in -3..3 : Emit("mob.pow", <<vMob(M), vInt(k), orig>>) ELSE TRUE
       /\ IF orig.t = "inf" THEN Emit("mob.fixed", <<vMob(M)>>) ELSE TRUE
       /\ IF orig.t = "inf" /\ depth = 1 THEN \A p \in -3..3, q \in 1..3 : Emit("mob.gpow", <<vMob(M), vInt(p), vInt(q), vNum(RFrac(3, 4))>>) ELSE TRUE
OutData ==
  IF ~Scenarios \/ depth # 0 \/ orig.t # "inf" THEN TRUE
  ELSE LET W == {Fin(IPt(0, 0)), Fin(IPt(1, 2)), Fin(IPt(-3, 1)), Fin(IPt(2, 0)), Inf} IN
       /\ \A p1, p2, p3 \in W : Cardinality({p1, p2, p3}) = 3 =>
             \A q \in {<<1, 2, 3>>, <<3, 1, 2>>, <<2, 3, 1>>, <<4, 1, 3>>, <<1, 4, 2>>, <<2, 3, 4>>} :
               LET V == <<Fin(IPt(1, 1)), Fin(IPt(-2, 0)), Fin(IPt(0, 3)), Inf>> IN
               Emit("mob.3pts", <<p1, p2, p3, V[q[1]], V[q[2]], V[q[3]]>>)
       /\ \A i, j \in Invs : \A b \in BOOLEAN : \A p \in W :
             Emit("inv.comp", <<vInv(i[1], i[2]), vInv(j[1], j[2]), vBool(b), p>>)
       /\ \A c, d \in {IPt(0, 0), IPt(2, 1)} : \A r, s \in {R1, R3} :
             Emit("mob.circ", <<vCircle(c, r), vCircle(d, s)>>)
       /\ \A a, b, c, d \in {IPt(5, 0), IPt(3, 4), IPt(-4, 3), IPt(0, -5), IPt(1, 1)} :
             Cardinality({a, b, c, d}) = 4 => Emit("cross", <<vPt(a), vPt(b), vPt(c), vPt(d)>>)
=============================================================================
