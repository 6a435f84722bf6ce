------------------------------- MODULE MC_Swap ------------------------------
(***************************************************************************)
(* Pairs of circles: the inversions that swap them (centred at their       *)
(* centres of similitude), that fix them, and their mid-circles.  A step   *)
(* moves from the pair to one of its swapping / fixing inversions.         *)
(***************************************************************************)
EXTENDS PInv, Scen
CONSTANTS Span, Radii2, Scenarios
Radii == {RFrac(i, 2) : i \in Radii2}
Cs == {IPt(x, y) : x \in 0..Span, y \in 0..Span} \cup {<<RFrac(x, 2), R0>> : x \in {1, 3, 5}}
VARIABLES f, g, io, kind
vars == <<f, g, io, kind>>
Init == /\ f = vCircle(V0, R2) \/ f = vCircle(V0, R1) \/ f = vCircle(IPt(1, -1), RFrac(5, 2))
        /\ \E c \in Cs, r \in Radii : g = vCircle(VAdd(c, f.c), r)
        /\ io = vNone /\ kind = "pair"
Swap(o, k, w) == /\ kind = "pair" /\ k # R0 /\ kind' = w /\ io' = vInv(o, k) /\ UNCHANGED <<f, g>>
Radical == LET d == VSub(g.c, f.c)
               k == RSq(f.r) -- RSq(g.r)
           IN VAdd(Mid(f.c, g.c), VMul(k // (R2 ** N2(d)), d))
Next == \/ f.r # g.r /\ Swap(ExtC(f.c, f.r, g.c, g.r), KExt(f.c, f.r, g.c, g.r), "swap")
        \/ Swap(IntC(f.c, f.r, g.c, g.r), KInt(f.c, f.r, g.c, g.r), "swap")
        \/ f.c # g.c /\ Swap(Radical, PowAt(Radical, f.c, f.r), "fix")
Img(h) == InvG(io.o, io.k, GFig(h))
SwapLaw == kind = "swap" => GSame(Img(f), GFig(g)) /\ GSame(Img(g), GFig(f))
FixLaw == kind = "fix" => GSame(Img(f), GFig(f)) /\ GSame(Img(g), GFig(g))
\* how the circles meet decides the signs available
SignLaw ==
  kind = "pair" /\ f.c # g.c =>
    LET how == Meet(f.c, f.r, g.c, g.r)
        p == SignExists(f.c, f.r, g.c, g.r, TRUE)
        n == SignExists(f.c, f.r, g.c, g.r, FALSE)
    IN CASE how = "cross" -> p /\ ~n
         [] how \in {"outside", "inside"} -> (p <=> (how = "inside" \/ f.r # g.r)) /\ n
         [] how \in {"ext-tangent", "int-tangent"} -> (p <=> f.r # g.r) /\ ~n
         [] OTHER -> TRUE
Ev(op, a, r) == [i |-> 0, op |-> op, a |-> a, r |-> r]
Wrong == [io EXCEPT !.o = VAdd(@, <<RFrac(1, 20), RFrac(1, 30)>>)]
Conform ==
  /\ kind = "swap" => LET a == <<f, g, vBool(RPos(io.k))>>
                          ok == PostInv(Ev("inv.swap", a, io))
                      IN Accepted(ok) /\ (IsSkip(ok) \/ (Rejected(PostInv(Ev("inv.swap", a, Wrong)))
                                          /\ (f.c = g.c \/ Rejected(PostInv(Ev("inv.swap", a, [io EXCEPT !.k = RNeg(@)]))))))
  /\ kind = "fix" => LET ok == PostInv(Ev("inv.fix2", <<f, g>>, io))
                     IN Accepted(ok) /\ (IsSkip(ok) \/ Rejected(PostInv(Ev("inv.fix2", <<f, g>>, Wrong))))
Out == (Scenarios /\ kind = "pair") =>
   /\ Emit("inv.swap", <<f, g, vBool(TRUE)>>) /\ Emit("inv.swap", <<f, g, vBool(FALSE)>>)
   /\ Emit("inv.swap", <<g, f, vBool(TRUE)>>)
   /\ Emit("midc", <<f, g>>) /\ Emit("midc", <<g, f>>)
   /\ (f.c # g.c => Emit("inv.fix2", <<f, g>>))
   /\ Emit("inv.fix3", <<f, g, vCircle(IPt(-2, 3), R1)>>)
=============================================================================
