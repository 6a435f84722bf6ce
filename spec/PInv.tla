-------------------------------- MODULE PInv --------------------------------
(* Inversions: P01 points, P02 circles and lines, P03 swapping and fixing.  *)
EXTENDS Geo

T6 == RFrac(1, 1000000)
T4 == RFrac(1, 10000)
TR == RFrac(1, 1000)

\* ---- the model: exact inversion ------------------------------------------
InvPt(o, k, p) == VAdd(o, VMul(k // D2(p, o), VSub(p, o)))
\* image of a generalized circle under inversion with pole o and power k
InvG(o, k, G) ==
  LET b == VAdd(GB(G), VMul(R2 ** G[1], o))          \* pole-centred coefficients
      D == GEval(G, o)
      b2 == VSub(VMul(k, b), VMul(R2 ** D, o))
  IN <<D, b2[1], b2[2], (D ** N2(o)) -- (k ** Dot(b, o)) ++ (G[1] ** RSq(k))>>
\* distance of the pole to the curve, relative to the size of the data
Eps11 == RFrac(1, 1000000000) ** RFrac(1, 100)
Eps10 == RFrac(1, 1000000000) ** RFrac(1, 10)
PoleGapWithin(o, G, m, t) ==
  IF IsGLine(G) THEN RSq(GEval(G, o)) \preceq (RSq(t ** m) ** N2(GB(G)))
  ELSE RAbs(GEval(G, o) // G[1]) \preceq (t ** RSq(m))
PoleGapSmall(o, G, m) == PoleGapWithin(o, G, m, T4)
\* both points of the recorded line f lie on the curve H, which is a line or a
\* circle so large that it passes for one
GGrad(H, p) == VAdd(VMul(R2 ** H[1], p), GB(H))
PtNearG(H, p) == RSq(GEval(H, p)) \preceq (RSq(Tol5 ** (R1 ++ Mag(p))) ** N2(GGrad(H, p)))
LineNearG(f, H) == PtNearG(H, f.A) /\ PtNearG(H, f.B)

\* a recorded figure f is the curve G
MatchFig(f, G, m, t) ==
  IF f.t = "circle" THEN ~IsGLine(G) /\ MatchCircle(f, G, m, t)
  ELSE f.t = "line" /\ IsGLine(G) /\ MatchLine(f, G, m, t)
FigMag(f) == IF f.t = "circle" THEN RMax(Mag(f.c), f.r) ELSE MagAll(<<f.A, f.B>>)

\* ---- P01 ------------------------------------------------------------------
TFine == RFrac(1, 100000) ** RFrac(1, 1000000)
\* inv.pt : iota, M  ->  << iota(M), iota(iota(M)) >>
PostInvPt(e) ==
  LET io == e.a[1]  M == e.a[2]  r == e.r.v[1]  rr == e.r.v[2]
      o == io.o  k == io.k
  IN IF M.t = "inf" THEN
       IF r.t # "pt" THEN {"inf-to-pole"}
       ELSE Chk(r.v = o, "inf-to-pole") \cup Chk(rr.t = "inf", "pole-to-inf")
     ELSE IF M.v = o THEN Chk(r.t = "inf", "pole-to-inf")
                         \cup Chk(rr.t = "pt", "inf-to-pole")
     ELSE
       LET v == VSub(M.v, o)  m == RMax(Mag(M.v), Mag(o))
       IN IF Mag(v) \preceq (T6 ** m) \/ Mag(v) \preceq T6 THEN SKIP("near pole")
          ELSE IF r.t # "pt" THEN {"not-a-point"}
          ELSE LET w == VSub(r.v, o)
                   img == InvPt(o, k, M.v)
                   c == R1 ++ (m // Mag(v))
                   mw == RMax(Mag(r.v), m)
               IN Chk(ParallelT(v, w, TFine ** (c ++ (mw // RMax(Mag(w), Tol)))), "collinear-with-pole")
                  \cup Chk(NearT(Dot(v, w), k, (RAbs(k) ** c) ++ (Mag(v) ** mw), TFine), "product-is-power")
                  \cup Chk(NearPT(r.v, img, (Mag(img) ** c) ++ m, TFine), "image")
                  \cup (IF Mag(w) \preceq (T6 ** mw) \/ Mag(w) \preceq T6 THEN {}
                        ELSE IF rr.t # "pt" THEN {"involution"}
                        ELSE Chk(NearPT(rr.v, M.v, (m ++ mw) ** (R1 ++ (Mag(v) // Mag(w))), T6), "involution"))

\* ---- P02 ------------------------------------------------------------------
\* inv.fig : iota, figure -> << image, image of the image >>
PostInvFig(e) ==
  LET io == e.a[1]  f == e.a[2]  r == e.r.v[1]  rr == e.r.v[2]
      G == GFig(f)  H == InvG(io.o, io.k, G)
      m == RMax(Mag(io.o), FigMag(f))
      through == OnG(G, io.o)
  IN IF ~through /\ PoleGapSmall(io.o, G, m) THEN
       IF r.t = "line" /\ PoleGapWithin(io.o, G, m, Eps11) THEN Chk(LineNearG(r, H), "image-set")
       ELSE SKIP("pole near the figure")
     ELSE IF ~IsFig(r) THEN {"not-a-figure"}
     ELSE Chk((r.t = "line") = IsGLine(H), "line-iff-through-pole")
          \cup (IF (r.t = "line") # IsGLine(H) THEN {}
                ELSE Chk(MatchFig(r, H, RMax(m, FigMag(r)), T6), "image-set")
                \cup (IF Whole(f) THEN Chk(Whole(r), "whole-line") ELSE {})
                \cup (IF ~IsFig(rr) THEN {"involution"}
                      ELSE IF ~MatchFig(r, H, RMax(m, FigMag(r)), T6) THEN {}
                      ELSE Chk(MatchFig(rr, G, m ** (R1 ++ (FigMag(r) // m)), TR), "involution")))

\* ---- P03 ------------------------------------------------------------------
\* the powers of the inversions that swap two circles with centres C1, C2
ExtC(c1, r1, c2, r2) == VMul(R1 // (r2 -- r1), VSub(VMul(r2, c1), VMul(r1, c2)))
IntC(c1, r1, c2, r2) == VMul(R1 // (r2 ++ r1), VAdd(VMul(r2, c1), VMul(r1, c2)))
PowAt(o, c, r) == D2(o, c) -- RSq(r)
KExt(c1, r1, c2, r2) == (r1 // r2) ** PowAt(ExtC(c1, r1, c2, r2), c2, r2)
KInt(c1, r1, c2, r2) == RNeg((r1 // r2) ** PowAt(IntC(c1, r1, c2, r2), c2, r2))
Meet(c1, r1, c2, r2) ==
  LET d == D2(c1, c2) IN
  IF (c1 = c2) /\ r1 = r2 THEN "equal"
  ELSE IF RSq(r1 ++ r2) \prec d THEN "outside"
  ELSE IF d = RSq(r1 ++ r2) THEN "ext-tangent"
  ELSE IF d = RSq(r1 -- r2) THEN "int-tangent"
  ELSE IF d \prec RSq(r1 -- r2) THEN "inside" ELSE "cross"
NearTangent(c1, r1, c2, r2) ==
  LET d == D2(c1, c2)  m == T4 ** RSq(r1 ++ r2)
  IN \/ d # RSq(r1 ++ r2) /\ RAbs(d -- RSq(r1 ++ r2)) \preceq m
     \/ d # RSq(r1 -- r2) /\ RAbs(d -- RSq(r1 -- r2)) \preceq m
SignExists(c1, r1, c2, r2, pos) ==
  LET good(k) == IF pos THEN RPos(k) ELSE RNegv(k)
  IN \/ good(KInt(c1, r1, c2, r2))
     \/ r1 # r2 /\ good(KExt(c1, r1, c2, r2))
     \/ c1 = c2                                   \* both signs of r1*r2 work
MapsTo(o, k, f, g, m) ==
  LET G == GFig(f)  H == InvG(o, k, G)
  IN ~IsGLine(H) /\ MatchCircle(g, H, m, T6)
ReflPt(A, B, p) ==
  LET n == Perp(VSub(B, A))
  IN VSub(p, VMul((R2 ** Dot(n, VSub(p, A))) // N2(n), n))
SwapsByLine(A, B, f, g, m) ==
  Near(f.r, g.r, m) /\ NearPT(ReflPt(A, B, f.c), g.c, m, T6)
\* inv.swap : circ1, circ2, positive -> iota (or reflection)
PostSwap(e) ==
  LET f == e.a[1]  g == e.a[2]  pos == e.a[3].v  r == e.r
      how == Meet(f.c, f.r, g.c, g.r)
      m == RMax(FigMag(f), FigMag(g))
      congrT == how = "ext-tangent" /\ f.r = g.r
  IN IF NearTangent(f.c, f.r, g.c, g.r) \/ (f.r # g.r /\ RAbs(f.r -- g.r) \preceq (T4 ** m)) THEN SKIP("near special position")
     ELSE IF congrT THEN
       IF r.t # "refl" THEN {"congruent-tangent-reflection"}
       ELSE Chk(SwapsByLine(r.A, r.B, f, g, m), "swaps")
     ELSE IF r.t # "inv" THEN {"not-an-inversion"}
     ELSE LET mm == RMax(m, Mag(r.o)) IN
          Chk(~RZero(r.k) /\ MapsTo(r.o, r.k, f, g, mm) /\ MapsTo(r.o, r.k, g, f, mm), "swaps")
          \cup Chk((how # "equal" /\ SignExists(f.c, f.r, g.c, g.r, pos))
                   => (IF pos THEN RPos(r.k) ELSE RNegv(r.k)), "requested-sign")
\* midc : circ1, circ2 -> circle | line | list of two
MidOk(h, f, g, m) ==
  IF h.t = "circle" THEN MapsTo(h.c, RSq(h.r), f, g, RMax(m, FigMag(h)))
                         /\ MapsTo(h.c, RSq(h.r), g, f, RMax(m, FigMag(h)))
  ELSE h.t = "line" /\ SwapsByLine(h.A, h.B, f, g, RMax(m, MagAll(<<h.A, h.B>>)))
PostMid(e) ==
  LET f == e.a[1]  g == e.a[2]  r == e.r
      how == Meet(f.c, f.r, g.c, g.r)
      m == RMax(FigMag(f), FigMag(g))
      all == IF r.t = "list" THEN r.v ELSE <<r>>
      hm(h) == IF h.t = "circle" THEN h.c ELSE IF h.t = "line" THEN h.A ELSE V0
  IN IF NearTangent(f.c, f.r, g.c, g.r) \/ (f.r # g.r /\ RAbs(f.r -- g.r) \preceq (T4 ** m)) THEN SKIP("near special position")
     ELSE Chk(\A i \in 1..Len(all) : IsFig(all[i]), "figures")
          \cup (IF \E i \in 1..Len(all) : ~IsFig(all[i]) THEN {}
                ELSE Chk(Len(all) = (IF how = "cross" THEN 2 ELSE 1), "two-iff-crossing")
                     \cup Chk(\A i \in 1..Len(all) : Whole(all[i]), "whole-line")
                     \cup Chk(\A i \in 1..Len(all) : MidOk(all[i], f, g, m), "swaps")
                     \cup Chk(Len(all) = 2 => (all[1].t # all[2].t
                             \* different radii: at least half the distance of the centres of similitude
                             \/ (f.r # g.r /\ (D2(f.c, g.c) ** RSq(f.r ** g.r)) \preceq (D2(hm(all[1]), hm(all[2])) ** RSq(RSq(f.r) -- RSq(g.r))))), "distinct"))
FixOk(o, k, f, m) == MapsTo(o, k, f, f, m)
PostFix2(e) ==
  LET f == e.a[1]  g == e.a[2]  r == e.r
      how == Meet(f.c, f.r, g.c, g.r)
      m == RMax(FigMag(f), FigMag(g))
  IN IF NearTangent(f.c, f.r, g.c, g.r) \/ how \in {"ext-tangent", "int-tangent", "equal"}
        \/ Mag(VSub(f.c, g.c)) \preceq (T4 ** m) THEN SKIP("tangent or concentric")
     ELSE IF r.t # "inv" THEN {"not-an-inversion"}
     ELSE LET mm == RMax(m, Mag(r.o)) IN
          Chk(~RZero(r.k) /\ FixOk(r.o, r.k, f, mm) /\ FixOk(r.o, r.k, g, mm), "fixes")
PostFix3(e) ==
  LET f == e.a[1]  g == e.a[2]  h == e.a[3]  r == e.r
      m == RMax(FigMag(f), RMax(FigMag(g), FigMag(h)))
      cr == Cross(VSub(g.c, f.c), VSub(h.c, f.c))
  IN IF RAbs(cr) \preceq (RFrac(1, 2000) ** RSq(m)) THEN SKIP("collinear centres")
     ELSE IF r.t # "inv" THEN {"not-an-inversion"}
     ELSE LET mm == RMax(m, Mag(r.o)) IN
          IF RAbs(PowAt(r.o, f.c, f.r)) \preceq (T4 ** RSq(mm)) THEN SKIP("radical centre on the circles")
          ELSE Chk(~RZero(r.k) /\ FixOk(r.o, r.k, f, mm) /\ FixOk(r.o, r.k, g, mm)
                   /\ FixOk(r.o, r.k, h, mm), "fixes")
PostOnCircle(e) ==
  LET f == e.a[1]  r == e.r
  IN IF r.t # "inv" THEN {"not-an-inversion"}
     ELSE Chk(r.o = f.c, "pole-is-centre") \cup Chk(Near(r.k, RSq(f.r), RSq(f.r)), "power-is-squared-radius")

PInvOps == {"inv.pt", "inv.circle", "inv.line", "inv.gcircle", "line.invert",
            "inv.swap", "midc", "inv.fix2", "inv.fix3", "inv.oncircle"}
PostInv(e) ==
  CASE e.op = "inv.pt" -> PostInvPt(e)
    [] e.op \in {"inv.circle", "inv.line", "inv.gcircle", "line.invert"} -> PostInvFig(e)
    [] e.op = "inv.swap" -> PostSwap(e)
    [] e.op = "midc" -> PostMid(e)
    [] e.op = "inv.fix2" -> PostFix2(e)
    [] e.op = "inv.fix3" -> PostFix3(e)
    [] e.op = "inv.oncircle" -> PostOnCircle(e)
=============================================================================
