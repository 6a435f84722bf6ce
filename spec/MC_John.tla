------------------------------- MODULE MC_John -------------------------------
(***************************************************************************)
(* Point sets with their smallest enclosing ellipse and the multipliers    *)
(* that prove it smallest, under affine maps: the ellipse moves along and  *)
(* the multipliers stay.                                                   *)
(***************************************************************************)
EXTENDS PEll, Scen
CONSTANTS Depth, Wide, Scenarios
Q(p, q) == RFrac(p, q)
\* sets on the unit circle with multipliers
Bases == {
  [k |-> "square", P |-> <<IPt(1, 0), IPt(0, 1), IPt(-1, 0), IPt(0, -1)>>, w |-> <<RHalf, RHalf, RHalf, RHalf>>],
  [k |-> "octagon", P |-> <<<<Q(3, 5), Q(4, 5)>>, <<Q(-3, 5), Q(4, 5)>>, <<Q(3, 5), Q(-4, 5)>>, <<Q(-3, 5), Q(-4, 5)>>,
                          <<Q(4, 5), Q(3, 5)>>, <<Q(-4, 5), Q(3, 5)>>, <<Q(4, 5), Q(-3, 5)>>, <<Q(-4, 5), Q(-3, 5)>>>>, w |-> [i \in 1..8 |-> Q(1, 4)]],
  [k |-> "hexagon", P |-> <<<<Q(3, 5), Q(4, 5)>>, <<Q(-3, 5), Q(4, 5)>>, <<Q(3, 5), Q(-4, 5)>>, <<Q(-3, 5), Q(-4, 5)>>, IPt(1, 0), IPt(-1, 0)>>,
              w |-> <<Q(25, 64), Q(25, 64), Q(25, 64), Q(25, 64), Q(7, 32), Q(7, 32)>>],
  [k |-> "kite", P |-> <<IPt(0, 1), <<Q(24, 25), Q(-7, 25)>>, <<Q(-24, 25), Q(-7, 25)>>, IPt(0, -1)>>,
           w |-> <<Q(702, 1152), Q(625, 1152), Q(625, 1152), Q(352, 1152)>>]}
\* triangles: centre at the centroid, multipliers 2/3
Tris == {<<IPt(0, 0), IPt(4, 0), IPt(0, 4)>>, <<IPt(-1, 0), IPt(2, 1), IPt(1, 5)>>}
Extras == {<<>>, <<IPt(0, 0)>>, <<<<Q(1, 2), R0>>, <<Q(1, 5), Q(-3, 5)>>>>, <<<<Q(-1, 2), Q(1, 4)>>, <<Q(1, 5), Q(3, 5)>>, <<R0, Q(-1, 3)>>, IPt(0, 0)>>}
\* the second moment of the points about c, with multipliers
Moment(P, w, c) ==
  LET n == Len(P)  d == [i \in 1..n |-> VSub(P[i], c)] IN
  <<RSumSeq([i \in 1..n |-> w[i] ** RSq(d[i][1])]), RSumSeq([i \in 1..n |-> w[i] ** (d[i][1] ** d[i][2])]), RSumSeq([i \in 1..n |-> w[i] ** RSq(d[i][2])])>>
VARIABLES P, w, c, S, kind, depth
vars == <<P, w, c, S, kind, depth>>
Zeros(k) == [i \in 1..k |-> R0]
Init == /\ depth = 0
        /\ \/ \E b \in Bases, x \in Extras : P = b.P \o x /\ w = b.w \o Zeros(Len(x)) /\ c = V0 /\ S = <<R1, R0, R1>>
                                              /\ kind = IF x = <<>> THEN b.k ELSE "set"
           \/ \E t \in Tris, x \in {<<>>, <<0>>} :
                /\ c = Centroid(t) /\ P = t \o [i \in 1..Len(x) |-> Mid(Centroid(t), t[1])]
                /\ w = [i \in 1..3 |-> Q(2, 3)] \o Zeros(Len(x))
                /\ S = Moment(t, [i \in 1..3 |-> Q(2, 3)], Centroid(t)) /\ kind = IF x = <<>> THEN "triangle" ELSE "set"
Letters == {RotMap(IPt(1, 0), Q(3, 5), Q(4, 5)), ShearMap(IPt(0, 1), IPt(1, 0), R1, R1), SxyMap(V0, R2, R1), ScalMap(IPt(1, 1), IPt(3, 4), Q(1, 2)),
            HomMap(IPt(1, 0), R3), IdTrans(IPt(7, -4)), ReflMap(IPt(0, 1), IPt(1, 3))} \cup (IF Wide THEN {<<R1, R2, RNeg(R1), R1, R3, R0>>, SxyMap(IPt(1, 1), R1, Q(1, 3))} ELSE {})
Next == /\ depth < Depth /\ depth' = depth + 1 /\ UNCHANGED <<w, kind>>
        /\ \E A \in Letters : P' = [i \in 1..Len(P) |-> AffApply(A, P[i])] /\ c' = AffApply(A, c) /\ S' = CovImg(A, S)

\* ---- laws -----------------------------------------------------------------
Lv(i) == CovLevel(S, VSub(P[i], c))
Inside == \A i \in 1..Len(P) : Lv(i) \preceq R1 /\ (RPos(w[i]) => Lv(i) = R1)
Balanced == RSumSeq(w) = R2 /\ Moment(P, w, c) = S
            /\ RSumSeq([i \in 1..Len(P) |-> w[i] ** (P[i][1] -- c[1])]) = R0 /\ RSumSeq([i \in 1..Len(P) |-> w[i] ** (P[i][2] -- c[2])]) = R0
\* no competitor of smaller area encloses the points (a sample of competitors)
Shifts == {V0, <<Q(1, 10), R0>>, <<R0, Q(-1, 20)>>}
Rivals == {<<A ** S[1], Bq ** S[2], C ** S[3]>> : A \in {Q(9, 10), R1, Q(6, 5)}, Bq \in {Q(1, 2), R1, Q(5, 4)}, C \in {Q(4, 5), R1, Q(5, 4)}}
Smallest == \A T \in Rivals, s \in Shifts :
  (RPos(CovDet(T)) /\ \A i \in 1..Len(P) : CovLevel(T, VSub(P[i], VAdd(c, s))) \preceq R1) => CovDet(S) \preceq CovDet(T)
\* the first variation of the area along the pencil through four points vanishes for the smallest one only
\* (in the coordinates of the initial unit circle)
ASSUME LET e(r) == [t |-> "circle", c |-> V0, r |-> r]
           sq == <<IPt(1, 0), IPt(0, 1), IPt(-1, 0), IPt(0, -1)>>
           rc == <<<<Q(3, 5), Q(4, 5)>>, <<Q(-3, 5), Q(4, 5)>>, <<Q(-3, 5), Q(-4, 5)>>, <<Q(3, 5), Q(-4, 5)>>>>
       IN Stationary(e(R1), sq, R0) /\ ~Stationary(e(R1), rc, T4)

Ev(op, x, r) == [i |-> 0, op |-> op, a |-> x, r |-> r]
Ms == [t |-> "mat", n |-> Len(P), m |-> 2, v |-> P]
El(o, a, b, u) == [t |-> "ell", c |-> o, a |-> a, b |-> b, u |-> u, al |-> R0, deg |-> TRUE]
Mu(s) == [t |-> "multi", v |-> s]
V(x) == [t |-> "vec", v |-> x]
Conform ==
  S = <<R1, R0, R1>> =>
    /\ PostEll(Ev("lj", <<Ms>>, Mu(<<El(c, R1, R1, C1), V(w)>>))) = {}
    /\ PostEll(Ev("lj", <<Ms>>, Mu(<<El(c, Q(101, 100), Q(101, 100), C1), V(w)>>))) = {"no-smaller-ellipse"}
    /\ PostEll(Ev("lj", <<Ms>>, Mu(<<El(c, Q(99, 100), Q(99, 100), C1), V(w)>>))) # {}
    /\ PostEll(Ev("lj", <<Ms>>, Mu(<<El(VAdd(c, <<Q(1, 100), R0>>), R1, R1, C1), V(w)>>))) # {}
    /\ PostEll(Ev("lj", <<Ms>>, Mu(<<El(c, R2, R2, C1), V([i \in DOMAIN w |-> R4 ** w[i]])>>))) = {"no-smaller-ellipse"}
    /\ kind \in {"square"} => PostEll(Ev("b4", <<Ms>>, El(c, R1, R1, C1))) = {}
    /\ kind = "kite" => PostEll(Ev("b4", <<Ms>>, El(c, R1, R1, C1))) = {}
Rect == <<P[1], P[2], P[4], P[3]>>
Out ==
  IF ~Scenarios THEN TRUE
  ELSE /\ \A s \in 1..2 : Emit("lj", <<[t |-> "mat", n |-> Len(P), m |-> 2, v |-> P], vInt(1000 * s + depth)>>)
       /\ kind = "triangle" => Emit("b3", <<[t |-> "mat", n |-> 3, m |-> 2, v |-> P]>>)
       /\ kind \in {"square", "kite"} => Emit("b4", <<[t |-> "mat", n |-> 4, m |-> 2, v |-> P]>>)
       /\ kind \in {"octagon", "hexagon"} => Emit("b4", <<[t |-> "mat", n |-> 4, m |-> 2, v |-> SubSeq(P, 1, 4)]>>)
=============================================================================
