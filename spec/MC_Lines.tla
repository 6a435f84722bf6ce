------------------------------ MODULE MC_Lines ------------------------------
(***************************************************************************)
(* A configuration of two lines and a point under exact motions of the     *)
(* plane (and re-descriptions of the lines).  The relations between the    *)
(* figures never change, and the derived points move along.                *)
(***************************************************************************)
EXTENDS PLin, Scen
CONSTANTS Depth, Wide, Scenarios

Ln(A, d, x, y) == [t |-> "line", A |-> A, B |-> VAdd(A, d), ea |-> x, eb |-> y]
Dirs == {IPt(1, 0), IPt(0, 1), IPt(1, 1), IPt(2, -1)} \cup (IF Wide THEN {IPt(-1, 3), IPt(0, -2)} ELSE {})
Firsts == {Ln(a, d, x, y) : a \in {IPt(0, 0), IPt(1, -1)}, d \in Dirs, x \in BOOLEAN, y \in BOOLEAN}
Bases == {IPt(0, 0), IPt(2, 1), IPt(-1, 1)} \cup (IF Wide THEN {IPt(1, -1), IPt(0, -2)} ELSE {})
Points == {IPt(0, 0), IPt(1, -1), IPt(2, 2), IPt(3, -2), IPt(-1, 0), <<RHalf, RNeg(RHalf)>>}

VARIABLES l, h, p, rel, depth
vars == <<l, h, p, rel, depth>>
Rel(a, b, q) == [eq |-> SameLine(a, b), par |-> ParLines(a, b), orth |-> OrthLines(a, b),
                 on |-> OnLine(a, q), strict |-> InExtent(a, q)]
Init == /\ l \in Firsts
        /\ \E b \in Bases, d \in Dirs : h = Ln(b, d, TRUE, TRUE)
        /\ p \in Points
        /\ rel = Rel(l, h, p) /\ depth = 0
Motions == {RotMap(IPt(1, 0), RFrac(3, 5), RFrac(4, 5)), RotMap(IPt(0, 0), R0, R1), IdTrans(IPt(-2, 5)), HomMap(IPt(1, 1), RInt(-2))}
MoveL(A, x) == [x EXCEPT !.A = AffApply(A, @), !.B = AffApply(A, @)]
Move(A) == l' = MoveL(A, l) /\ h' = MoveL(A, h) /\ p' = AffApply(A, p)
\* the same point set described from its other end
Flip(x) == [x EXCEPT !.A = x.B, !.B = x.A, !.ea = x.eb, !.eb = x.ea]
\* other defining points, for a full line
Slide(x) == [x EXCEPT !.A = VAdd(x.B, Dir(x)), !.B = VSub(x.A, VMul(R3, Dir(x)))]
Next == /\ depth < Depth /\ depth' = depth + 1 /\ rel' = rel
        /\ \/ \E A \in Motions : Move(A)
           \/ l' = Flip(l) /\ UNCHANGED <<h, p>>
           \/ h' = Slide(h) /\ UNCHANGED <<l, p>>

\* ---- laws -----------------------------------------------------------------
Preserved == Rel(l, h, p) = rel
Sym == /\ SameLine(l, h) = SameLine(h, l) /\ (SameLine(l, h) => ParLines(l, h)) /\ ~(ParLines(l, h) /\ OrthLines(l, h))
       /\ rel.strict => rel.on
FootLaw == LET f == Foot(l, p) IN
  /\ OnLine(l, f) /\ RZero(Dot(VSub(p, f), Dir(l)))
  /\ Foot(l, f) = f /\ (f = p <=> OnLine(l, p))
  /\ LET q == VSub(VMul(R2, f), p) IN Foot(l, q) = f /\ ReflPt(l.A, l.B, p) = q
  /\ DL2(l, p) = D2(p, f)
MeetLaw == ~ParLines(l, h) => LET q == MeetLines(l, h) IN OnLine(l, q) /\ OnLine(h, q) /\ q = MeetLines(h, l)
\* the defining points belong to every extent; a segment is the intersection of its half-lines
ExtentLaw == /\ InExtent(l, l.A) /\ InExtent(l, l.B)
             /\ InExtent([l EXCEPT !.ea = FALSE, !.eb = FALSE], p)
                  = (InExtent([l EXCEPT !.ea = TRUE, !.eb = FALSE], p) /\ InExtent([l EXCEPT !.ea = FALSE, !.eb = TRUE], p))

\* ---- the post-conditions accept the exact outcome and refuse wrong ones ---
Ev(op, a, r) == [i |-> 0, op |-> op, a |-> a, r |-> r]
B(x) == [t |-> "bool", v |-> x]
Inc(x, y) == [t |-> "multi", v |-> <<B(x), B(y)>>]
BinI(a, x) == PostLin(Ev("line.inc", a, Inc(x, x))) = {} /\ PostLin(Ev("line.inc", a, Inc(~x, ~x))) # {} /\ (x => PostLin(Ev("line.inc", a, Inc(x, ~x))) # {})
Bin(op, a, x) == PostLin(Ev(op, a, B(x))) = {} /\ PostLin(Ev(op, a, B(~x))) # {}
M2(x, y) == [t |-> "multi", v |-> <<x, y>>]
Conform ==
  /\ Bin("line.eq", <<l, h>>, rel.eq)
  /\ Bin("line.par", <<l, h>>, rel.par)
  /\ Bin("line.perpq", <<l, h>>, rel.orth)
  /\ BinI(<<l, vPt(p), B(FALSE)>>, rel.on)
  /\ depth <= 1 => BinI(<<l, vPt(p), B(TRUE)>>, rel.strict)
  /\ LET f == Foot(l, p)  d == [l EXCEPT !.A = f, !.B = p, !.ea = FALSE, !.eb = TRUE]
     IN f # p => /\ PostLin(Ev("line.perp", <<l, vPt(p), B(FALSE), B(TRUE)>>, d)) = {}
                 /\ PostLin(Ev("line.perp", <<l, vPt(p), B(TRUE), B(TRUE)>>, d)) = {"requested-extents"}
                 /\ PostLin(Ev("line.perp", <<l, vPt(p), B(FALSE), B(TRUE)>>, [d EXCEPT !.A = VAdd(@, VMul(RFrac(1, 100), Dir(l)))])) # {}
  /\ LET r == IF rel.eq THEN h ELSE IF rel.par THEN vNone ELSE vPt(MeetLines(l, h))
         w == IF rel.eq \/ ~rel.par THEN vNone ELSE l
     IN PostLin(Ev("x.ll", <<l, h>>, M2(r, r))) = {} /\ PostLin(Ev("x.ll", <<l, h>>, M2(r, w))) # {}
Out ==
  IF ~Scenarios \/ depth # 0 THEN TRUE
  ELSE /\ Emit("line.inc", <<l, vPt(p), vBool(TRUE)>>) /\ Emit("line.inc", <<l, vPt(p), vBool(FALSE)>>)
       /\ Emit("line.perp", <<l, vPt(p), vBool(l.ea), vBool(h.A = l.A)>>)
       /\ Emit("line.proj", <<l, vPt(p)>>)
       /\ p = IPt(0, 0) => /\ Emit("line.eq", <<l, h>>) /\ Emit("line.par", <<l, h>>) /\ Emit("line.perpq", <<l, h>>)
                           /\ Emit("x.ll", <<l, h>>) /\ Emit("line.do", <<l>>) /\ Emit("line.eq", <<l, Slide(h)>>) /\ Emit("x.ll", <<Flip(h), l>>)
=============================================================================
