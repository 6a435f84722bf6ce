------------------------------ MODULE MC_Points -----------------------------
(***************************************************************************)
(* Sampling: a step draws the next point of a figure from rational random  *)
(* numbers, by the usual parametrizations.  Every reachable matrix must be *)
(* accepted, and rejected when a point is moved out of the figure, left    *)
(* out, or when a long matrix stays on one side.                           *)
(***************************************************************************)
EXTENDS PPoints, Scen
CONSTANTS Steps, Counts, Seeds, Scenarios
Q(a, b) == RFrac(a, b)
Dirs == {<<R1, R0>>, <<Q(3, 5), Q(4, 5)>>, <<Q(-5, 13), Q(12, 13)>>, <<Q(-8, 17), Q(-15, 17)>>, <<R0, R1>>, <<Q(4, 5), Q(-3, 5)>>}
Rs == {R0, Q(1, 3), R1, Q(3, 4)}
Bs == {<<R1, R0, R0>>, <<Q(1, 3), Q(1, 3), Q(1, 3)>>, <<R0, Q(1, 4), Q(3, 4)>>, <<RHalf, R0, RHalf>>, <<Q(1, 5), Q(4, 5), R0>>, <<R0, R0, R1>>}
Figs == {vCircle(IPt(2, -1), RInt(3)), vCircle(V0, RHalf), vCircle(<<Q(-7, 2), RInt(40)>>, R2),
         vEll(IPt(1, 2), R3, R1, <<R1, R0>>), vEll(IPt(-2, 0), RInt(4), RHalf, <<Q(3, 5), Q(4, 5)>>), vEll(IPt(3, 3), R2, R2, <<Q(-5, 13), Q(12, 13)>>),
         vTri(IPt(0, 0), IPt(4, 0), IPt(1, 3)), vTri(IPt(-1, 2), IPt(-3, -3), IPt(5, 1)), vTri(IPt(0, 0), IPt(8, 1), IPt(6, 4))}
VARIABLES f, w, P
vars == <<f, w, P>>
Init == f \in Figs /\ w \in {"in", "on"} /\ P = <<>>
At(z, s) == \* the point at direction z, fraction s of the radius
  IF f.t = "circle" THEN VAdd(f.c, VMul(s ** f.r, z))
  ELSE VAdd(f.c, VAdd(VMul((s ** f.a) ** z[1], f.u), VMul((s ** f.b) ** z[2], Perp(f.u))))
Comb(b) == VAdd(VMul(b[1], f.A), VAdd(VMul(b[2], f.B), VMul(b[3], f.C)))
Next == /\ Len(P) < Steps /\ UNCHANGED <<f, w>>
        /\ \/ f.t # "tri" /\ \E z \in Dirs, s \in (IF w = "on" THEN {R1} ELSE Rs) : P' = Append(P, At(z, s))
           \/ f.t = "tri" /\ \E b \in Bs : (w = "on" => \E j \in 1..3 : RZero(b[j])) /\ P' = Append(P, Comb(b))
Ev(n, M) == [i |-> 0, op |-> "rpts", a |-> <<f, [t |-> "num", v |-> RInt(n)], vStr(w), [t |-> "num", v |-> R0]>>,
             r |-> [t |-> "mat", n |-> Len(M), m |-> 2, v |-> M]]
J(n, M) == PostPoints(Ev(n, M))
Centre == IF f.t = "tri" THEN Comb(<<Q(1, 3), Q(1, 3), Q(1, 3)>>) ELSE f.c
Rep(M, k) == [i \in 1..k |-> M[((i - 1) % Len(M)) + 1]]
Conform == Len(P) > 0 =>
  /\ J(Len(P), P) = {} /\ J(Len(P) + 1, P) # {}
  /\ LET out == VAdd(Centre, IPt(100, 70)) IN J(Len(P) + 1, Append(P, out)) # {}
  /\ LET x == P[Len(P)]  y == VAdd(Centre, VMul(Q(11, 10), VSub(x, Centre))) IN w = "on" => J(Len(P), [P EXCEPT ![Len(P)] = y]) # {}
  /\ w = "on" => J(Len(P) + 1, Append(P, Centre)) # {}
  /\ Len(P) = 1 => J(400, Rep(P, 400)) # {}
All == IF f.t = "tri" THEN {Comb(b) : b \in (IF w = "in" THEN Bs ELSE Bs \ {<<Q(1, 3), Q(1, 3), Q(1, 3)>>})}
       ELSE {At(z, s) : z \in Dirs \cup {VNeg(d) : d \in Dirs}, s \in (IF w = "on" THEN {R1} ELSE Rs)}
AllSeq == LET RECURSIVE F(_)
              F(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o F(S \ {x}) IN F(All)
Long == P = <<>> => LET M == Rep(IF f.t = "tri" /\ w = "in" THEN AllSeq \o <<Comb(<<Q(1, 8), Q(3, 4), Q(1, 8)>>)>> ELSE AllSeq, 400) IN J(400, M) = {}
Out == (Scenarios /\ P = <<>>) =>
  /\ \A n \in Counts, s \in Seeds : Emit("rpts", <<f, vInt(n), vStr(w), vInt(s)>>)
  /\ \A x \in {"inside", "", "IN", "out", "on "} : Emit("rpts", <<f, vInt(4), vStr(x), vInt(0)>>)
=============================================================================
