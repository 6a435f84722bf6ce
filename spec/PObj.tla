-------------------------------- MODULE PObj -------------------------------
(***************************************************************************)
(* P25: objects hold and show the data they were built from.  A class is   *)
(* the sequence of its fields; an argument left out stands for the         *)
(* documented default.                                                     *)
(***************************************************************************)
EXTENDS PArgs
Fields == [
  Line |-> <<"pt", "pt", "flag", "flag">>, Circle |-> <<"pt", "num">>, Arc |-> <<"pt", "num", "num", "num", "flag">>,
  Ellipse |-> <<"pt", "num", "num", "num", "flag">>, Inversion |-> <<"pt", "num">>, Triangle |-> <<"pt", "pt", "pt">>,
  Affine |-> <<"mat", "pt">>, Mobius |-> <<"cmat">>, Reflection |-> <<"line">>, Projection |-> <<"line", "line">>,
  Rotation |-> <<"pt", "num", "flag">>, Shear |-> <<"pt", "pt", "num", "num", "flag">>, ScalingXY |-> <<"pt", "num", "num">>,
  Homothety |-> <<"pt", "num">>, Scaling |-> <<"pt", "pt", "num">> ]
Optional == [Line |-> {3, 4}, Arc |-> {5}, Ellipse |-> {5}, Rotation |-> {3}, Shear |-> {5}]
OptOf(n) == IF n \in DOMAIN Optional THEN Optional[n] ELSE {}
\* what the field i must hold when x was given; all: the data of the object
ReC(z) == z[1]
Holds(k, x, h, D) ==
  CASE k = "flag" -> h.t = "bool" /\ h.v = (IF x.t = "omitted" THEN TRUE ELSE x.v)
    [] k = "pt" -> h.t = "pt" /\ h.v = x.v
    [] k = "num" -> h.t = "num" /\ h.v = x.v
    [] k = "mat" -> h.t = "mat" /\ h.n = 2 /\ h.m = 2 /\ h.v = x.v
    [] k = "cmat" -> h.t = "cmat" /\ h.v = (IF x.t = "cmat" THEN x.v ELSE [i \in 1..2 |-> [j \in 1..2 |-> <<x.v[i][j], R0>>]])
    [] k = "line" -> h.t = "line" /\ (IF x.t = "none" THEN OrthoT(VSub(h.B, h.A), VSub(D.B, D.A), Tol)
                                      ELSE h.A = x.A /\ h.B = x.B)
\* the numbers that describe a field, in order
Numbers(k, x) ==
  CASE k = "flag" \/ x.t = "none" -> <<>>
    [] k = "pt" -> x.v
    [] k = "num" -> <<x.v>>
    [] k = "mat" -> <<x.v[1][1], x.v[1][2], x.v[2][1], x.v[2][2]>>
    [] k = "cmat" -> IF x.t = "cmat" THEN x.v[1][1] \o x.v[1][2] \o x.v[2][1] \o x.v[2][2] ELSE <<x.v[1][1], R0, x.v[1][2], R0, x.v[2][1], R0, x.v[2][2], R0>>
    [] k = "line" -> x.A \o x.B
RECURSIVE Sub(_, _, _)          \* s is a subsequence of w, printed with 8 digits relative to m
Sub(s, w, m) == IF s = <<>> THEN TRUE ELSE IF w = <<>> THEN FALSE
                ELSE IF NearT(Head(s), Head(w), m, T6) THEN Sub(Tail(s), Tail(w), m) ELSE Sub(s, Tail(w), m)
RECURSIVE MaxAbs(_)
MaxAbs(s) == IF s = <<>> THEN R0 ELSE RMax(RAbs(Head(s)), MaxAbs(Tail(s)))
\* each field's numbers are shown, one after another (in the order of the fields or not)
Shown(K, X, w) == \A i \in DOMAIN K : LET s == Numbers(K[i], X[i]) IN Sub(s, w, MaxAbs(s))
\* a shear shows its ratio by its second vector
ShownBy(n, K, X, w) == IF n = "Shear" THEN LET s == VMul(X[3].v, Perp(X[2].v)) IN
                         Sub(s, w, Mag(s)) /\ Shown(<<K[1], K[2], K[4]>>, <<X[1], X[2], X[4]>>, w) ELSE Shown(K, X, w)
\* ---- the sentences of show ----
Flag(x) == x.t = "omitted" \/ x.v
PerpDir(D, E) == OrthoT(VSub(E.B, E.A), VSub(D.B, D.A), T4)
Orthogonal(X) == IF X[2].t = "none" THEN {TRUE} ELSE IF PerpDir(X[1], X[2]) THEN BOOLEAN ELSE {FALSE}
Unit(x) == <<{IF Flag(x) THEN "degree" ELSE "radian"}, {IF Flag(x) THEN "radian" ELSE "degree"}>>
\* << what is said, what is not >>
Says(n, X) ==
  CASE n = "Line" -> LET a == Flag(X[3])  b == Flag(X[4])  all == {"infinite", "half-line", "segment", "from a", "from b"}
                         yes == IF a /\ b THEN {"infinite"} ELSE IF a THEN {"half-line", "from b"} ELSE IF b THEN {"half-line", "from a"} ELSE {"segment"}
                     IN <<yes, all \ yes>>
    [] n = "Triangle" ->
         LET u == VSub(X[2].v, X[1].v)  v == VSub(X[3].v, X[1].v)  d == RSq(Dot(u, v))  m == N2(u) ** N2(v)
         IN IF RZero(m) THEN <<{}, {}>>
            ELSE IF RZero(Cross(u, v)) /\ DyadicT([A |-> X[1].v, B |-> X[2].v, C |-> X[3].v]) THEN <<{"flat"}, {"almost"}>>
            ELSE IF m \preceq (RFrac(1000001, 1000000) ** d) THEN <<{"flat"}, {}>>
            ELSE IF (RFrac(991, 1000) ** m) \preceq d THEN <<{"flat", "almost"}, {}>>
            ELSE IF d \preceq (RFrac(989, 1000) ** m) THEN <<{}, {"flat", "almost"}>> ELSE <<{}, {}>>
    [] n = "Projection" -> LET O == Orthogonal(X) IN <<IF O = {TRUE} THEN {"orthogonal"} ELSE {}, IF O = {FALSE} THEN {"orthogonal"} ELSE {}>>
    [] n = "Ellipse" \/ n = "Shear" -> Unit(X[5])
    [] n = "Rotation" -> Unit(X[3])
    [] OTHER -> <<{}, {}>>
Told(n, X, w) == w.t = "list" /\ LET W == {w.v[i].v : i \in DOMAIN w.v}  S == Says(n, X) IN S[1] \subseteq W /\ S[2] \cap W = {}
\* obj : class, style, given -> << held fields, attributes orthogonal / a..d, arrays of floats?, numbers shown, numbers of str, sentences shown >>
PostObj(e) ==
  LET n == e.a[1].v  X == e.a[3].v  r == e.r  K == Fields[n]  opt(i) == X[i] IN
  IF r.t # "multi" \/ Len(r.v) # 6 THEN {"object-built"}
  ELSE LET h == r.v[1].v  d == r.v[2] IN
  (IF Len(h) # Len(K) THEN {"fields"} ELSE
     UNION {Chk(Holds(K[i], X[i], h[i], IF n = "Projection" THEN h[1] ELSE h[i]), "holds-what-was-given") : i \in DOMAIN K})
  \cup (CASE n = "Projection" -> Chk(d.t = "bool" /\ d.v \in Orthogonal(X), "orthogonal-when-no-direction-is-given")
          [] n = "Mobius" -> Chk(d.t = "list" /\ Len(d.v) = 4 /\ LET N == Numbers("cmat", X[1]) IN
               \A i \in 1..4 : d.v[i].t = "cx" /\ d.v[i].v = <<N[2 * i - 1], N[2 * i]>>, "coefficients")
          [] OTHER -> {})
  \cup Chk(r.v[3].t = "bool" /\ r.v[3].v, "points-are-arrays-of-floats")
  \cup (IF r.v[4].t = "none" THEN {} ELSE Chk(r.v[4].t = "vec" /\ ShownBy(n, K, X, r.v[4].v), "show-shows-the-data"))
  \cup Chk(r.v[5].t = "vec" /\ (n \in {"Reflection", "Projection"} \/ Shown(K, X, r.v[5].v)), "str-shows-the-data")
  \cup (IF r.v[6].t = "none" THEN {} ELSE Chk(Told(n, X, r.v[6]), "show-describes-the-object"))
PObjOps == {"obj"}
=============================================================================
