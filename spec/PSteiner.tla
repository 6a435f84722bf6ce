------------------------------ MODULE PSteiner ------------------------------
(* P20: Steiner chains.                                                    *)
EXTENDS PTri

\* ---- the model ------------------------------------------------------------
Nxt(i, n) == (i % n) + 1
\* circles c[1..n] form a closed chain between the circle o and the circle n inside it
InTangent(o, c, t) == IsSqrt(o.r -- c.r, D2(o.c, c.c), t)       \* c inside o, touching
OutTangent(c, d, t) == IsSqrt(c.r ++ d.r, D2(c.c, d.c), t)
Chain(o, c, inner, t) ==
  LET n == Len(c) IN
  Chk(\A i \in 1..n : InTangent(o, c[i], t), "tangent-to-the-outer-circle")
  \cup Chk(\A i \in 1..n : OutTangent(c[i], inner, t), "tangent-to-the-inner-circle")
  \cup Chk(\A i \in 1..n : OutTangent(c[i], c[Nxt(i, n)], t), "tangent-to-its-neighbours")
\* the inversion that preserves the circle o, with its pole at o.r/phi along the x axis
SPole(o, phi) == VAdd(o.c, <<o.r // phi, R0>>)
SPower(o, phi) == RSq(o.r) ** (RInv(RSq(phi)) -- R1)
UnInv(o, phi, c) ==       \* the circle whose inverse is c
  IF RZero(phi) THEN [c |-> c.c, r |-> c.r]
  ELSE LET G == InvG(SPole(o, phi), SPower(o, phi), GCircle(c.c, c.r)) IN [c |-> GCenter(G), r2 |-> GR2(G)]
R2Of(x) == IF "r2" \in DOMAIN x THEN x.r2 ELSE RSq(x.r)

\* ---- P20 ------------------------------------------------------------------
\* an upper and a lower bound of 2 pi, within 1e-13
TwoPi == RDiv(RAdd(RMul(RInt(628318530), RInt(100000)), RInt(71796)), RMul(RInt(10000000), RInt(1000000)))
\* steiner : circle, n, phi, shift -> << chain, angles (i + shift) 2 pi / n >>; the angles are the driver's, verified here
AngleAt(x, i, n, shift) ==
  /\ RAbs((x.v ** RInt(n)) -- ((RInt(i) ++ shift) ** TwoPi)) \preceq (RFrac(1, 1000000000) ** (RInt(n) ++ RAbs(shift)))
  /\ RAbs((RSq(x.c) ++ RSq(x.s)) -- R1) \preceq RFrac(1, 1000000000)
PostSteiner(e) ==
  LET o == e.a[1]  n == IntOf(e.a[2])  phi == e.a[3].v  shift == e.a[4].v
      r == e.r.v[1]  an == e.r.v[2]
      m == o.r ++ RMul(RFrac(1, 100), Mag(o.c))
  IN IF ~IsDict(r, {"circles", "ellipse"}) THEN {"circles-and-ellipse"}
     ELSE IF r.v["circles"].t # "list" \/ Len(r.v["circles"].v) # n + 1 THEN {"n-circles-and-the-inner-circle"}
     ELSE LET cs == r.v["circles"].v  c == SubSeq(cs, 1, n)  inner == cs[n + 1]  L == r.v["ellipse"] IN
       IF \E i \in 1..(n + 1) : ~IsCirc(cs[i]) THEN {"n-circles-and-the-inner-circle"}
       ELSE Chain(o, c, inner, T6 ** m)
            \cup Chk(L.t \in {"ell", "circle"} /\ \A i \in 1..n : NearT(EllLevel(L, c[i].c), R1, R1 ++ (Mag(o.c) // o.r), T6), "ellipse-through-the-centres")
            \cup (LET u == [i \in 1..n |-> UnInv(o, phi, c[i])]
                      rho == R2Of(u[1])
                      k == R1 ++ (IF RZero(phi) THEN R0 ELSE (RInv(RSq(phi)) ** T6) ++ RInv(R1 -- RAbs(phi)))
                      t == (T6 ** m) ** k
                  IN Chk(an.t = "list" /\ Len(an.v) = n /\ \A i \in 1..n : AngleAt(an.v[i], i - 1, n, shift), "witness")
                     \cup Chk(\A i \in 1..n : RAbs(R2Of(u[i]) -- rho) \preceq (t ** o.r), "chain-of-equal-radii-before-the-inversion")
                     \cup Chk(\A i \in 1..n : \* |centre| = R - rho, rho^2 known: compare the direction and (R-rho)^2
                          LET v == VSub(u[i].c, o.c)  w == <<an.v[i].c, an.v[i].s>>  d == Dot(v, w) IN
                          RAbs(Cross(v, w)) \preceq t /\ IsSqrt(o.r -- d, rho, t), "centres-at-the-angles-before-the-inversion"))
PSteinerOps == {"steiner"}
=============================================================================
