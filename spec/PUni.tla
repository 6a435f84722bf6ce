-------------------------------- MODULE PUni --------------------------------
(* P21: unimodular matrices <<a, b, c, d>> = ((a b) (c d)).                *)
EXTENDS PSteiner
\* ---- the model: neighbours in the Stern-Brocot tree of [0, 1], as <<denominator, numerator>>
Med(p, q) == <<p[1] + q[1], p[2] + q[2]>>
MatOf(p, q) == <<p[1], q[1], p[2], q[2]>>
RECURSIVE Between(_, _, _)
Between(p, q, n) == {MatOf(p, q)} \cup (IF p[1] + q[1] > n THEN {} ELSE Between(p, Med(p, q), n) \cup Between(Med(p, q), q, n))
FareyPairs(n) == Between(<<1, 0>>, <<1, 1>>, n)
DetI(m) == (m[1] * m[4]) - (m[2] * m[3])
Identity == <<1, 0, 0, 1>>
\* ---- uni : n -> << matrices, whether all of them are integer arrays >>
PostUni(e) ==
  LET n == IntOf(e.a[1])  r == e.r.v[1] IN
  IF r.t # "imats" THEN {"integer-2x2-matrices"}
  ELSE LET L == r.v  S == {L[i] : i \in DOMAIN L} IN
       Chk(e.r.v[2].t = "bool" /\ e.r.v[2].v, "integer-2x2-matrices")
       \cup Chk(Len(L) > 0 /\ L[1] = Identity, "identity-first")
       \cup Chk(\A m \in S : DetI(m) = 1, "determinant-one")
       \cup Chk(\A m \in S : \A i \in 1..4 : m[i] \in 0..n, "entries-between-0-and-n")
       \cup Chk(Cardinality(S) = Len(L), "no-repetition")
       \cup (IF n = 1 THEN {} ELSE Chk(S \ {Identity} = FareyPairs(n), "exactly-the-farey-pairs"))
PUniOps == {"uni"}
=============================================================================
