------------------------------ MODULE MC_Ellipse ------------------------------
(***************************************************************************)
(* An ellipse under exact similarities of the plane, with its equation     *)
(* (moved by substitution) and a point: all descriptions move together.    *)
(***************************************************************************)
EXTENDS PEll, Scen
CONSTANTS Depth, Wide, Scenarios

El(c, a, b, u) == [t |-> "ell", c |-> c, a |-> a, b |-> b, u |-> u, al |-> R0, deg |-> TRUE]
Q(p, q) == RFrac(p, q)
Us == {<<R1, R0>>, <<R0, R1>>, <<Q(3, 5), Q(4, 5)>>, <<Q(-5, 13), Q(12, 13)>>} \cup (IF Wide THEN {<<Q(-4, 5), Q(-3, 5)>>, <<RNeg(R1), R0>>, <<Q(8, 17), Q(-15, 17)>>} ELSE {})
Axes == {<<R2, R1>>, <<RInt(5), R3>>, <<R3, R3>>, <<R1, Q(1, 4)>>} \cup (IF Wide THEN {<<RInt(7), R1>>, <<RInt(4), RInt(3)>>} ELSE {})
Cs == {IPt(0, 0), IPt(2, -3)} \cup (IF Wide THEN {IPt(-7, 1)} ELSE {})
Zs == {<<R0, R0>>, <<R1, R0>>, <<Q(-3, 5), Q(4, 5)>>, <<R2, R1>>, <<Q(1, 2), Q(-1, 2)>>, <<Q(12, 13), Q(-5, 13)>>} \cup (IF Wide THEN {<<R0, RNeg(R1)>>, <<Q(3, 4), Q(3, 4)>>, <<Q(99, 100), R0>>} ELSE {})
VARIABLES f, q, p, z, depth
vars == <<f, q, p, z, depth>>
Init == \E c \in Cs, x \in Axes, u \in Us : \E zz \in Zs :
          /\ f = El(c, x[1], x[2], u) /\ q = ConFig(El(c, x[1], x[2], u))
          /\ z = zz /\ p = EllPt(El(c, x[1], x[2], u), zz) /\ depth = 0
\* <<map, ratio, reverses>>
Motions == {<<RotMap(IPt(1, 0), Q(3, 5), Q(4, 5)), R1, FALSE>>, <<RotMap(IPt(2, -1), R0, RNeg(R1)), R1, FALSE>>,
            <<HomMap(IPt(1, 1), RInt(-2)), R2, FALSE>>, <<ReflMap(IPt(0, 1), IPt(1, 3)), R1, TRUE>>,
            <<IdTrans(IPt(-3, 1)), R1, FALSE>>}
Mv(M, e) == El(AffApply(M[1], e.c), M[2] ** e.a, M[2] ** e.b, VMul(R1 // M[2], AffLin(M[1], e.u)))
Next == /\ depth < Depth /\ depth' = depth + 1
        /\ \E M \in Motions :
             /\ f' = Mv(M, f) /\ q' = ConSubst(q, AffInv(M[1])) /\ p' = AffApply(M[1], p)
             /\ z' = IF M[3] THEN Conj(z) ELSE z

\* ---- laws -----------------------------------------------------------------
SameCurve == ConSame(q, ConFig(f))
Position == Local(f, p) = z /\ EllLevel(f, p) = N2(z)
SignLaw == RSgn(ConEval(q, p)) = RSgn(N2(z) -- R1) * RSgn(q[1])
KindLaw == ConKind(q) = "ellipse" /\ ConCentre(q) = f.c /\ ConKind([i \in 1..6 |-> RNeg(q[i])]) = "ellipse"
FiveZ == <<<<R1, R0>>, <<Q(3, 5), Q(4, 5)>>, <<Q(-4, 5), Q(3, 5)>>, <<Q(-5, 13), Q(-12, 13)>>, <<Q(4, 5), Q(-3, 5)>>>>
FiveP == [i \in 1..5 |-> EllPt(f, FiveZ[i])]
FiveLaw == z = <<R1, R0>> => ConSame(ConThrough(FiveP), q)
\* S = quadratic part over minus the value at the centre
ShapeOf == LET K == RNeg(ConEval(q, f.c)) IN <<<<q[1] // K, (q[2] // R2) // K>>, <<(q[2] // R2) // K, q[3] // K>>>>
ShapeLaw == Quad(ShapeOf, VSub(p, f.c)) = N2(z)
ASSUME /\ ConKind(<<R1, R0, R1, R0, R0, R1>>) = "none" /\ ConKind(<<R1, R0, RNeg(R1), R0, R0, R1>>) = "none"
       /\ ConKind(<<R1, R0, R1, R0, R0, R0>>) = "none" /\ ConKind(<<R1, R2, R1, R1, R0, RInt(-5)>>) = "none"
       /\ ConKind(<<RNeg(R1), R0, RInt(-4), R0, R0, R1>>) = "ellipse"

\* ---- the post-conditions accept the exact outcome and refuse wrong ones ---
Ev(op, x, r) == [i |-> 0, op |-> op, a |-> x, r |-> r]
N(x) == [t |-> "num", v |-> x]
B(x) == [t |-> "bool", v |-> x]
A2(w) == [t |-> "ang", c |-> w[1], s |-> w[2], rad |-> R0, v |-> R0, deg |-> FALSE]
Dict(w) == [t |-> "dict", v |-> [A |-> N(w[1]), B |-> N(w[2]), C |-> N(w[3]), D |-> N(w[4]), E |-> N(w[5]), F |-> N(w[6])]]
Mat(M) == [t |-> "mat", n |-> Len(M), m |-> 2, v |-> M]
Mu(s) == [t |-> "multi", v |-> s]
Tilt == El(f.c, f.a, f.b, CMul(f.u, <<Q(4, 5), Q(3, 5)>>))
Wrong == {El(VAdd(f.c, IPt(0, 1)), f.a, f.b, f.u), El(f.c, f.a ** Q(11, 10), f.b, f.u)} \cup (IF f.a = f.b THEN {} ELSE {Tilt})
\* a path of 4 from the major axis
Path4(w) == Mat(<<EllPt(f, w), EllPt(f, Perp(w)), EllPt(f, VNeg(w)), EllPt(f, VNeg(Perp(w)))>>)
Conform ==
  /\ PostEll(Ev("ell.eq", <<f>>, Dict(q))) = {} /\ PostEll(Ev("ell.shape", <<f>>, Mat(ShapeOf))) = {}
  /\ PostEll(Ev("ell.fromeq", [i \in 1..6 |-> N(q[i])], f)) = {}
  /\ PostEll(Ev("ell.frommat", <<vPt(f.c), Mat(ShapeOf)>>, f)) = {}
  /\ PostEll(Ev("ell.same", <<f, f>>, B(TRUE))) = {} /\ PostEll(Ev("ell.same", <<f, El(f.c, f.a, f.b, VNeg(f.u))>>, B(TRUE))) = {}
  /\ \A h \in Wrong :
       /\ PostEll(Ev("ell.eq", <<h>>, Dict(q))) # {} /\ PostEll(Ev("ell.fromeq", [i \in 1..6 |-> N(q[i])], h)) # {}
       /\ PostEll(Ev("ell.same", <<f, h>>, B(TRUE))) # {} /\ PostEll(Ev("ell.same", <<f, h>>, B(FALSE))) = {}
       /\ z = <<R1, R0>> => PostEll(Ev("ell.five", <<[t |-> "list", v |-> [i \in 1..5 |-> vPt(FiveP[i])]]>>, Mu(<<h, Dict(q)>>))) \notin {{}}
  /\ PostEll(Ev("ell.frommat", <<vPt(f.c), Mat(ShapeOf)>>, [t |-> "raise"])) # {}
  /\ PostEll(Ev("ell.path", <<f, N(R4)>>, Path4(Z0))) = {}
  /\ PostEll(Ev("ell.path", <<f, N(R4)>>, Path4(<<R0, R1>>))) # {}
  /\ PostEll(Ev("ell.path", <<f, N(R4)>>, Mat(<<EllPt(f, Z0), EllPt(f, <<R0, RNeg(R1)>>), EllPt(f, <<RNeg(R1), R0>>), EllPt(f, <<R0, R1>>)>>))) # {}
  /\ \A w \in {Z0, <<Q(3, 5), Q(4, 5)>>, <<Q(-5, 13), Q(12, 13)>>} :
       LET dir == <<f.a ** w[1], f.b ** w[2]>> IN
       /\ PostEll(Ev("ell.diam", <<f, A2(w), B(FALSE)>>, [t |-> "line", A |-> EllPt(f, w), B |-> EllPt(f, VNeg(w)), ea |-> FALSE, eb |-> FALSE])) = {}
       /\ PostEll(Ev("ell.diam", <<f, A2(w), B(FALSE)>>, [t |-> "line", A |-> EllPt(f, w), B |-> EllPt(f, VNeg(w)), ea |-> TRUE, eb |-> FALSE])) # {}
       /\ PostEll(Ev("ell.diam", <<f, A2(w), B(FALSE)>>, [t |-> "line", A |-> EllPt(f, Perp(w)), B |-> EllPt(f, VNeg(Perp(w))), ea |-> FALSE, eb |-> FALSE])) # {}
       /\ PostEll(Ev("ell.pfa", <<f, [t |-> "list", v |-> <<A2(dir)>>], vStr("no")>>, vPt(EllPt(f, w)))) = {}
       /\ PostEll(Ev("ell.pfa", <<f, [t |-> "list", v |-> <<A2(dir)>>], vStr("no")>>, vPt(EllPt(f, VNeg(w))))) # {}
       /\ PostEll(Ev("ell.t", <<f, A2(dir)>>, A2(w))) = {} /\ PostEll(Ev("ell.t", <<f, A2(dir)>>, A2(VNeg(w)))) # {}
       /\ f.a # f.b /\ w # Z0 => PostEll(Ev("ell.normal", <<f, A2(w)>>, vPt(VAdd(VMul(w[1], f.u), VMul(w[2], Perp(f.u)))))) # {}
  /\ PostEll(Ev("ell.normal", <<f, A2(Z0)>>, vPt(f.u))) = {} /\ PostEll(Ev("ell.normal", <<f, A2(Z0)>>, vPt(VNeg(f.u)))) # {}
  /\ LET s == RSgn(N2(z) -- R1) IN
     /\ PostEll(Ev("ell.mem", <<f, vPt(p)>>, Mu(<<B(s = 0), B(s <= 0)>>))) \subseteq {"SKIP:borderline"}
     /\ s # 0 => PostEll(Ev("ell.mem", <<f, vPt(p)>>, Mu(<<B(s = 0), B(s > 0)>>))) \subseteq {"contains-iff-inside", "SKIP:borderline"}

first == z = <<R1, R0>>
Out ==
  IF ~Scenarios \/ depth > 1 THEN TRUE
  ELSE
  /\ Emit("ell.mem", <<f, vPt(p)>>)
  /\ first =>
       /\ Emit("ell.eq", <<f>>) /\ Emit("ell.shape", <<f>>)
       /\ \A k \in {R1, RNeg(R1), RInt(-50), Q(1, 100)} : Emit("ell.re", <<f, vNum(k)>>)
       /\ Emit("ell.fromeq", [i \in 1..6 |-> vNum(q[i])])
       /\ Emit("ell.five", <<vList([i \in 1..5 |-> vPt(FiveP[i])])>>)
       /\ \A h \in Wrong \cup {f, El(f.c, f.a, f.b, VNeg(f.u))} : Emit("ell.same", <<f, h>>)
       /\ Emit("ell.same", <<f, vCircle(f.c, f.a)>>) /\ Emit("ell.same", <<f, vCircle(f.c, f.b)>>)
       /\ depth = 0 =>
          /\ \A n \in {1, 2, 3, 5, 8} : Emit("ell.path", <<f, vInt(n)>>)
          /\ \A i \in {0, 45, 90, 180, 225, -90, 400} :
               /\ Emit("ell.pfa", <<f, vList(<<vAngD(i)>>), vStr("no")>>) /\ Emit("ell.pfa", <<f, vList(<<vAngD(i), vAngD(i + 30)>>), vStr("array")>>)
               /\ Emit("ell.t", <<f, vAngD(i)>>) /\ Emit("ell.normal", <<f, vAngD(i)>>)
               /\ Emit("ell.diam", <<f, vAngD(i), vBool(TRUE)>>) /\ Emit("ell.diam", <<f, vAngD(i), vBool(FALSE)>>)
               /\ f.a = f.b => Emit("circ.pfa", <<vCircle(f.c, f.a), vAngD(i)>>)
               /\ f.a = f.b => \A j \in {0, 60, 270, -30} : \A n \in {1, 2, 4} :
                    /\ Emit("arc.path", <<[t |-> "arcd", c |-> f.c, r |-> f.a, i |-> i, j |-> j], vInt(n)>>)
                    /\ Emit("arc.ends", <<[t |-> "arcd", c |-> f.c, r |-> f.a, i |-> i, j |-> j]>>)
=============================================================================
