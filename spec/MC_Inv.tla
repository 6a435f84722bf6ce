------------------------------- MODULE MC_Inv -------------------------------
(***************************************************************************)
(* The plane under inversions, exactly.  A state is a figure (a point,     *)
(* the point at infinity, a circle or a line of a rational lattice), the   *)
(* inversion last applied to it and the figure it came from; a step        *)
(* applies an inversion.  TLC checks the laws on every reachable state and *)
(* writes the calls to be replayed on the library.                         *)
(***************************************************************************)
EXTENDS PInv, Scen
CONSTANTS Span,        \* lattice half-width
          Second,      \* number of other inversions tried in second position
          Scenarios    \* whether to write the scenarios

Grid == {IPt(x, y) : x, y \in -Span..Span}
Poles == {IPt(0, 0), IPt(1, 0), IPt(-1, 2), <<RHalf, RNeg(RHalf)>>}
Powers == {RInt(1), RInt(-1), RInt(4), RFrac(-9, 4), RInt(25)}
Invs == {<<o, k>> : o \in Poles, k \in Powers}
Others == {<<IPt(2, 1), RInt(2)>>, <<IPt(0, 1), RInt(-3)>>, <<IPt(-2, -1), RFrac(1, 2)>>}
OthersN == {x \in Others : Second >= 3 \/ (Second >= 1 /\ x[2] = RInt(2)) \/ (Second >= 2 /\ x[2] = RInt(-3))}

Pts == {[t |-> "pt", v |-> p] : p \in Grid} \cup {[t |-> "inf"]}
Circs == {[t |-> "circle", c |-> c, r |-> r] :
            c \in {IPt(x, y) : x, y \in -1..Span}, r \in {RInt(1), RInt(2), RFrac(5, 2)}}
LineDirs == {IPt(1, 0), IPt(0, 1), IPt(1, 1), IPt(2, -1), IPt(-1, 3)}
Lins == {[t |-> "line", A |-> a, B |-> VAdd(a, d), ea |-> TRUE, eb |-> TRUE] :
            a \in {IPt(x, y) : x \in -1..1, y \in 0..Span}, d \in LineDirs}

\* rational points of a figure
Unit == {<<RFrac(3, 5), RFrac(4, 5)>>, <<RFrac(-5, 13), RFrac(12, 13)>>, <<R1, R0>>,
         <<R0, RNeg(R1)>>, <<RFrac(-15, 17), RFrac(-8, 17)>>}
PtsOf(f) == IF f.t = "circle" THEN {VAdd(f.c, VMul(f.r, u)) : u \in Unit}
            ELSE {VAdd(f.A, VMul(k, VSub(f.B, f.A))) : k \in {RInt(-2), R0, R1, RFrac(1, 3)}}

\* exact forward action.  Figures are carried as coefficient vectors ("g").
FwdPt(i, p) == IF p.t = "inf" THEN [t |-> "pt", v |-> i[1]]
               ELSE IF p.v = i[1] THEN [t |-> "inf"]
               ELSE [t |-> "pt", v |-> InvPt(i[1], i[2], p.v)]
Fwd(i, f) == CASE f.t \in {"pt", "inf"} -> FwdPt(i, f)
               [] f.t = "g" -> [t |-> "g", G |-> InvG(i[1], i[2], f.G)]

VARIABLES orig, cur, last, depth
vars == <<orig, cur, last, depth>>
NoInv == <<V0, R0>>
Start(f) == IF f.t \in {"pt", "inf"} THEN f ELSE [t |-> "g", G |-> GFig(f)]
Init == /\ orig \in Pts \cup Circs \cup Lins
        /\ cur = Start(orig) /\ last = NoInv /\ depth = 0
Apply(i) == cur' = Fwd(i, cur) /\ last' = i /\ depth' = depth + 1 /\ orig' = orig
Next == \/ depth = 0 /\ \E i \in Invs : Apply(i)
        \/ depth = 1 /\ \E i \in OthersN : Apply(i)

Same(x, y) == IF x.t = "g" THEN y.t = "g" /\ GSame(x.G, y.G) ELSE x = y

\* ---- laws -----------------------------------------------------------------
\* applying the last inversion again undoes it (so the previous figure is a preimage)
Involution == depth > 0 => Same(Fwd(last, Fwd(last, cur)), cur)
Involution1 == depth = 1 => Same(Fwd(last, cur), Start(orig))
\* the image curve carries the images of the points, and is a real curve
Incidence ==
  depth = 1 /\ cur.t = "g" =>
    /\ RPos(GNormalT(cur.G))
    /\ \A p \in PtsOf(orig) : LET q == FwdPt(last, [t |-> "pt", v |-> p])
                              IN q.t = "pt" => OnG(cur.G, q.v)
    /\ IsGLine(cur.G) <=> OnG(GFig(orig), last[1])
ProductLaw ==
  depth = 1 /\ orig.t = "pt" /\ cur.t = "pt" =>
     LET v == VSub(orig.v, last[1])  w == VSub(cur.v, last[1])
     IN RZero(Cross(v, w)) /\ Dot(v, w) = last[2]
InfPole == depth = 1 /\ orig.t = "inf" => cur = [t |-> "pt", v |-> last[1]]

\* ---- the post-conditions accept the exact outcome and refuse wrong ones ---
AsFig(G) ==          \* some recorded figure denoting the curve G, when rational
  IF IsGLine(G) THEN
    LET n == GB(G)  p == VMul(RNeg(G[4]) // N2(n), n)
    IN [t |-> "line", A |-> p, B |-> VAdd(p, Perp(n)), ea |-> TRUE, eb |-> TRUE]
  ELSE [t |-> "circle", c |-> GCenter(G), r |-> R0]
\* the radius of the image of circle (c, r) is |k| r / |power|: rational
FigOf(f, i, G) ==
  IF IsGLine(G) THEN AsFig(G)
  ELSE IF f.t = "circle"
       THEN [t |-> "circle", c |-> GCenter(G), r |-> RAbs(i[2] ** (f.r // (GEval(GFig(f), i[1]))))]
       ELSE [t |-> "skip"]
Ev(op, a, r) == [i |-> 0, op |-> op, a |-> a, r |-> [t |-> "multi", v |-> r]]
Moved(f) == IF f.t = "circle" THEN [f EXCEPT !.c = VAdd(@, <<TR ** (R1 ++ FigMag(f)), R0>>)]
            ELSE [f EXCEPT !.B = VAdd(@, VMul(TR, Perp(VSub(f.B, f.A))))]
Conform ==
  depth = 1 =>
   IF orig.t \in {"pt", "inf"} THEN
     /\ Accepted(PostInv(Ev("inv.pt", <<vInv(last[1], last[2]), orig>>, <<cur, orig>>)))
     /\ cur.t = "pt" => Rejected(PostInv(Ev("inv.pt", <<vInv(last[1], last[2]), orig>>,
                             <<[cur EXCEPT !.v = VAdd(@, <<R0, T4>>)], orig>>)))
   ELSE LET r == FigOf(orig, last, cur.G)
            op == IF orig.t = "circle" THEN "inv.circle" ELSE "inv.line"
            args == <<vInv(last[1], last[2]), orig>>
        IN r.t = "skip" \/
           LET ok == PostInv(Ev(op, args, <<r, orig>>))
           IN /\ Accepted(ok)
              /\ IsSkip(ok) \/ Rejected(PostInv(Ev(op, args, <<Moved(r), orig>>)))

Out == IF Scenarios /\ depth = 1
       THEN Emit(IF orig.t \in {"pt", "inf"} THEN "inv.pt" ELSE IF orig.t = "circle" THEN "inv.circle" ELSE "inv.line",
                 <<vInv(last[1], last[2]), orig>>)
       ELSE TRUE
=============================================================================
