----------------------------- MODULE MC_Triangle -----------------------------
(***************************************************************************)
(* Triangles with rational sides, area and (for some) half-angle sines     *)
(* under similarities and relabellings; the circles attached to them are   *)
(* computed exactly from the side lengths and checked against their        *)
(* definitions.                                                            *)
(***************************************************************************)
EXTENDS PTri, Scen
CONSTANTS Depth, Wide, Scenarios
Q(p, q) == RFrac(p, q)
\* vertices, sides a b c, distances of the incentre to the vertices (<<>> where irrational)
H(A, B, C, a, b, c, i) == [V |-> <<A, B, C>>, s |-> <<a, b, c>>, i |-> i]
\* half angles with rational sine and cosine (c, s), (d, t): inradius 1, A at the origin, B on the x axis
Super(c, s, d, t) ==
  LET ca == c // s  cb == d // t
      sg == (c ** d) -- (s ** t)  cg == (s ** d) ++ (c ** t)       \* sine and cosine of the third half angle
      cc == cg // sg
      b == ca ++ cc
  IN H(V0, <<ca ++ cb, R0>>, <<b ** (RSq(c) -- RSq(s)), b ** (R2 ** (c ** s))>>, cb ++ cc, b, ca ++ cb, <<R1 // s, R1 // t, R1 // sg>>)
Tris == {H(IPt(0, 0), IPt(14, 0), IPt(5, 12), RInt(15), RInt(13), RInt(14), <<>>),
         H(IPt(0, 0), IPt(4, 0), IPt(0, 3), RInt(5), RInt(3), RInt(4), <<>>),
         H(IPt(0, 0), IPt(4, 0), IPt(-5, 12), RInt(15), RInt(13), RInt(4), <<>>),
         H(IPt(-3, 0), IPt(3, 0), IPt(0, 4), RInt(5), RInt(5), RInt(6), <<>>),
         Super(Q(4, 5), Q(3, 5), Q(12, 13), Q(5, 13)), Super(Q(4, 5), Q(3, 5), Q(4, 5), Q(3, 5)),
         Super(Q(3, 5), Q(4, 5), Q(12, 13), Q(5, 13))}
        \cup (IF Wide THEN {Super(Q(15, 17), Q(8, 17), Q(12, 13), Q(5, 13)), Super(Q(15, 17), Q(8, 17), Q(4, 5), Q(3, 5)),
                            H(IPt(0, 0), IPt(21, 0), IPt(6, 8), RInt(17), RInt(10), RInt(21), <<>>)} ELSE {})
VARIABLES V, s, inc, depth
vars == <<V, s, inc, depth>>
Init == \E h \in Tris : V = h.V /\ s = h.s /\ inc = h.i /\ depth = 0
Motions == {<<RotMap(IPt(1, 0), Q(3, 5), Q(4, 5)), R1>>, <<RotMap(IPt(2, -1), R0, RNeg(R1)), R1>>, <<HomMap(IPt(1, 1), RInt(-2)), R2>>,
            <<HomMap(IPt(-3, 2), Q(1, 3)), Q(1, 3)>>, <<ReflMap(IPt(0, 1), IPt(1, 3)), R1>>, <<IdTrans(IPt(-3, 1)), R1>>}
Perms == {<<2, 3, 1>>, <<1, 3, 2>>, <<3, 2, 1>>}
Next == /\ depth < Depth /\ depth' = depth + 1
        /\ \/ \E M \in Motions : /\ V' = [i \in 1..3 |-> AffApply(M[1], V[i])] /\ s' = [i \in 1..3 |-> M[2] ** s[i]]
                                 /\ inc' = [i \in 1..Len(inc) |-> M[2] ** inc[i]]
           \/ \E p \in Perms : /\ V' = [i \in 1..3 |-> V[p[i]]] /\ s' = [i \in 1..3 |-> s[p[i]]]
                               /\ inc' = [i \in 1..Len(inc) |-> inc[p[i]]]

\* ---- the classical formulas -----------------------------------------------
T == [t |-> "tri", A |-> V[1], B |-> V[2], C |-> V[3]]
C(c, r) == [t |-> "circle", c |-> c, r |-> r]
Comb(w) == LET k == w[1] ++ w[2] ++ w[3] IN <<((w[1] ** V[1][1]) ++ (w[2] ** V[2][1]) ++ (w[3] ** V[3][1])) // k, ((w[1] ** V[1][2]) ++ (w[2] ** V[2][2]) ++ (w[3] ** V[3][2])) // k>>
Half == RHalf ** (s[1] ++ s[2] ++ s[3])
D(i) == Half -- s[i]
Area == RHalf ** RAbs(T2Area(T))
InC == C(Comb(s), Area // Half)
ExC(i) == C(Comb([j \in 1..3 |-> IF j = i THEN RNeg(s[j]) ELSE s[j]]), Area // D(i))
Circ == C(Comb([i \in 1..3 |-> LET x == RSq(s[i]) IN x ** ((RSq(s[1]) ++ RSq(s[2]) ++ RSq(s[3])) -- (R2 ** x))]), (s[1] ** s[2] ** s[3]) // (R4 ** Area))
MalR(i) == LET j == (i % 3) + 1  k == ((i + 1) % 3) + 1 IN
  (RHalf ** InC.r ** ((Half -- InC.r) -- (inc[j] ++ inc[k] -- inc[i]))) // D(i)
Mal == [i \in 1..3 |-> C(VAdd(V[i], VMul(MalR(i) // InC.r, VSub(InC.c, V[i]))), MalR(i))]
MalT == [i \in 1..3 |-> vPt(Contact(Mal[(i % 3) + 1], Mal[((i + 1) % 3) + 1]))]
\* inner Soddy radius and centre
Rho == R1 // ((R1 // D(1)) ++ (R1 // D(2)) ++ (R1 // D(3)) ++ (R2 // InC.r))
X176 == Comb([i \in 1..3 |-> s[i] ++ (Area // D(i))])
\* ---- laws -----------------------------------------------------------------
SidesLaw == \A i \in 1..3 : D2(V[(i % 3) + 1], V[((i + 1) % 3) + 1]) = RSq(s[i])
Heron == RSq(Area) = Half ** D(1) ** D(2) ** D(3)
IncLaw == \A i \in 1..Len(inc) : D2(InC.c, V[i]) = RSq(inc[i])
InLaw == InTriangle(T, InC.c) /\ \A i \in 1..3 : DL2(Side(T, i), InC.c) = RSq(InC.r) /\ DL2(Side(T, i), ExC(i).c) = RSq(ExC(i).r)
Feuerbach ==             \* the nine-point circle touches the incircle from inside and the excircles from outside
  LET G == Centroid(V)  N == VAdd(Circ.c, VMul(Q(3, 2), VSub(G, Circ.c)))  h == Circ.r // R2 IN
  /\ D2(N, InC.c) = RSq(h -- InC.r) /\ \A i \in 1..3 : D2(N, ExC(i).c) = RSq(h ++ ExC(i).r)
Euler == D2(Circ.c, InC.c) = Circ.r ** (Circ.r -- (R2 ** InC.r))
SoddyLaw == \A i \in 1..3 : D2(X176, V[i]) = RSq(Rho ++ D(i))
SteinerLaw ==
  LET S == SteinerCov(T)  g == Centroid(V) IN
  /\ \A i \in 1..3 : CovLevel(S, VSub(V[i], g)) = R1
  /\ \A i \in 1..3 : LET l == Side(T, i)  h == [j \in 1..3 |-> S[j] // R4] IN
       CovLevel(h, VSub(Mid(l.A, l.B), g)) = R1 /\ CovLevel(h, VSub(l.A, g)) = R4 /\ CovLevel(h, VSub(VAdd(l.A, VMul(Q(1, 3), Dir(l))), g)) = Q(4, 3)
Ev(op, x, r) == [i |-> 0, op |-> op, a |-> x, r |-> r]
P(op, r) == PostTri(Ev(op, <<T>>, r))
N(x) == [t |-> "num", v |-> x]
Dict(f) == [t |-> "dict", v |-> f]
MalD(c, t) == Dict([circles |-> Dict([cA |-> c[1], cB |-> c[2], cC |-> c[3]]), tangency_points |-> Dict([TA |-> t[1], TB |-> t[2], TC |-> t[3]])])
Multi(x) == [t |-> "multi", v |-> x]
Ex(i, j, k) == Dict([A |-> ExC(i), B |-> ExC(j), C |-> ExC(k)])
AngOf(i) == LET j == (i % 3) + 1  k == ((i + 1) % 3) + 1 IN
  [t |-> "ang", v |-> R1, c |-> Dot(VSub(V[j], V[i]), VSub(V[k], V[i])) // (s[j] ** s[k]), s |-> R0]
B(x) == [t |-> "bool", v |-> x]
Meas(o, x, i) == Multi(<<N(s[1]), N(s[2]), N(s[i]), Dict([a |-> N(s[1]), b |-> N(s[2]), c |-> N(s[i])]), AngOf(1), AngOf(2), AngOf(3),
                   N(Cos2(VSub(V[2], V[1]), VSub(V[3], V[1]))), N(o), B(x)>>)
Acute == \A i \in 1..3 : RPos(AngOf(i).c)
Right == \E i \in 1..3 : RZero(AngOf(i).c)
Conform ==
  /\ P("tri.in", InC) = {} /\ P("tri.in", C(InC.c, InC.r ** Q(101, 100))) # {} /\ P("tri.in", ExC(1)) # {}
  /\ P("tri.circum", Circ) = {} /\ P("tri.circum", C(Circ.c, Circ.r ** Q(101, 100))) # {} /\ P("tri.circum", vNone) # {}
  /\ P("tri.ex", Ex(1, 2, 3)) = {} /\ P("tri.ex", Ex(2, 1, 3)) # {} /\ P("tri.ex", Ex(1, 3, 2)) # {} /\ P("tri.ex", Dict([A |-> InC, B |-> ExC(2), C |-> ExC(3)])) # {}
  /\ inc # <<>> =>
       /\ P("tri.malf", MalD(Mal, MalT)) = {}
       /\ P("tri.malf", MalD(Mal, <<MalT[2], MalT[1], MalT[3]>>)) # {}
       /\ P("tri.malf", MalD([Mal EXCEPT ![2] = C(Mal[2].c, Mal[2].r ** Q(1001, 1000))], MalT)) # {}
       /\ P("tri.malf", MalD(<<Mal[2], Mal[1], Mal[3]>>, MalT)) \in {{}} => Mal[1].r = Mal[2].r
  /\ LET o == RInt(RSgn(T2Area(T))) IN
     /\ P("tri.meas", Meas(o, Acute, 3)) = {} /\ P("tri.meas", Meas(RNeg(o), Acute, 3)) = {"orientation"} /\ P("tri.meas", Meas(R0, Acute, 3)) = {"orientation"}
     /\ (~Right => P("tri.meas", Meas(o, ~Acute, 3)) = {"acute"}) /\ (s[1] # s[3] => P("tri.meas", Meas(o, Acute, 1)) # {})
  /\ \A w \in {<<R1, R1, R1>>, <<R1, RInt(5), R2>>} : PostTri(Ev("tri.contains", <<T, vPt(Comb(w))>>, B(TRUE))) = {}
  /\ \A w \in {<<RInt(-1), R2, R3>>, <<R2, R2, RInt(-1)>>, <<R3, RInt(-1), RInt(-1)>>} : PostTri(Ev("tri.contains", <<T, vPt(Comb(w))>>, B(TRUE))) # {}
  /\ LET F(i) == Foot(Side(T, i), V[i])  O(i, j, k) == [t |-> "tri", A |-> F(i), B |-> F(j), C |-> F(k)] IN
     P("tri.orthic", O(1, 2, 3)) = {} /\ (F(1) # F(2) => P("tri.orthic", O(2, 1, 3)) # {})
  /\ LET q == [t |-> "vec", v |-> [i \in 1..3 |-> Rho ++ D(i)]]  sv == [t |-> "vec", v |-> s] IN
     /\ P("tri.detour", Multi(<<vPt(X176), N(R2 ** Rho), q, sv>>)) = {} /\ P("tri.detour", Multi(<<vPt(X176), N(R3 ** Rho), q, sv>>)) # {}
     /\ P("tri.detour", Multi(<<vPt(InC.c), N(R2 ** Rho), q, sv>>)) # {} \/ InC.c = X176
Weights == {<<R1, R1, R1>>, <<RInt(-1), R2, R3>>, <<R2, R2, RInt(-1)>>, <<R1, RInt(5), R2>>, <<R3, RInt(-1), RInt(-1)>>, <<Q(1, 100), R1, R1>>, <<R1, Q(-1, 100), R1>>}
Flats == {<<IPt(0, 0), IPt(2, 1), IPt(6, 3)>>, <<IPt(1, 1), IPt(1, 5), IPt(1, -2)>>, <<IPt(3, -6), IPt(-1, 2), IPt(0, 0)>>, <<IPt(0, 0), IPt(0, 0), IPt(1, 1)>>, <<IPt(2, 1), IPt(7, 7), IPt(2, 1)>>}
TriOps == {"tri.in", "tri.circum", "tri.ex", "tri.malf", "tri.steiner", "tri.inell", "tri.meas", "tri.orthic", "tri.detour"}
Out ==
  IF ~Scenarios \/ depth > 2 THEN TRUE
  ELSE /\ \A op \in TriOps : Emit(op, <<T>>)
       /\ \A w \in Weights : Emit("tri.contains", <<T, vPt(Comb(w))>>)
       /\ depth = 0 => \A f \in Flats, op \in {"tri.circum", "tri.malf", "tri.steiner", "tri.inell", "tri.meas"} : Emit(op, <<[t |-> "tri", A |-> f[1], B |-> f[2], C |-> f[3]]>>)
=============================================================================
