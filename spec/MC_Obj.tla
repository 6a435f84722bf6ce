------------------------------- MODULE MC_Obj ------------------------------
(***************************************************************************)
(* The life of an object: Build (a class, a value for every field, some    *)
(* optional ones left out), then its fields are read.  A constructor may   *)
(* be faulty:                                                              *)
(*   "swap"     two fields of the same kind exchange their values          *)
(*   "drop"     an optional argument is ignored (its default is held)      *)
(*   "default"  the opposite default                                       *)
(*   "direction" a projection keeps the perpendicular direction            *)
(*   "scaled"   a number is doubled                                        *)
(* The specification accepts every faultless object and rejects an object  *)
(* exactly when the fault has changed what it holds.                       *)
(***************************************************************************)
EXTENDS PObj, Scen, SequencesExt
CONSTANTS Values, Scenarios
Q(a, b) == RFrac(a, b)
Omitted == [t |-> "omitted"]
PT == <<IPt(1, 2), <<Q(-7, 4), RInt(3)>>, <<R0, Q(-1, 2)>>, IPt(-5, 40), <<Q(1, 3), Q(12, 5)>>>>
NUM == <<RHalf, Q(5, 4), Q(3, 2), Q(7, 10), R1>>
MAT == << <<<<R2, R1>>, <<R0, R3>>>>, <<<<Q(-1, 2), R1>>, <<R1, Q(4, 3)>>>>, <<<<RInt(7), R0>>, <<RInt(-2), RInt(9)>>>> >>
CMAT == << <<<<IPt(1, 2), IPt(0, 1)>>, <<IPt(3, 0), IPt(-1, 4)>>>>, <<<<<<Q(1, 2), R0>>, IPt(5, 5)>>, <<IPt(0, -1), IPt(2, 0)>>>> >>
Pick(s, i) == s[((i - 1) % Len(s)) + 1]
LineAt(i) == [t |-> "line", A |-> Pick(PT, i), B |-> Pick(PT, i + 1), ea |-> TRUE, eb |-> TRUE]
Val(k, i) ==
  CASE k = "pt" -> [t |-> "pt", v |-> Pick(PT, i)]
    [] k = "num" -> [t |-> "num", v |-> Pick(NUM, i)]
    [] k = "mat" -> [t |-> "mat", n |-> 2, m |-> 2, v |-> Pick(MAT, i)]
    [] k = "cmat" -> [t |-> "cmat", v |-> Pick(CMAT, i)]
    [] k = "line" -> LineAt(i)
    [] k = "flag" -> [t |-> "bool", v |-> (i % 2 = 0)]
Classes == DOMAIN Fields
VARIABLES n, X, held, fault, ph
vars == <<n, X, held, fault, ph>>
\* the value number of field i: distinct for neighbouring fields
Init == /\ n \in Classes /\ fault \in {"none", "swap", "drop", "default", "direction", "scaled"} /\ ph = "ask" /\ held = <<>>
        /\ \E s \in Values, O \in SUBSET OptOf(n), fl \in [OptOf(n) -> BOOLEAN], nodir \in {FALSE} \cup (IF n = "Projection" THEN {TRUE} ELSE {}) :
             /\ X = [i \in DOMAIN Fields[n] |->
                 IF i \in O THEN Omitted
                 ELSE IF i \in OptOf(n) THEN [t |-> "bool", v |-> fl[i]]
                 ELSE IF nodir /\ i = 2 THEN [t |-> "none"]
                 ELSE Val(Fields[n][i], s + i)]
Perpline(L) == [L EXCEPT !.A = V0, !.B = Perp(VSub(L.B, L.A))]
Right(i) == CASE X[i].t = "omitted" -> [t |-> "bool", v |-> TRUE]
             [] X[i].t = "none" -> Perpline(X[1])
             [] OTHER -> X[i]
H0 == [i \in DOMAIN X |-> Right(i)]
Build ==
  /\ ph = "ask" /\ ph' = "held"
  /\ LET K == Fields[n] IN
     held' \in CASE fault = "swap" -> {h \in {[H0 EXCEPT ![i] = H0[j], ![j] = H0[i]] : i \in DOMAIN K, j \in DOMAIN K} : \A i \in DOMAIN K : h[i].t = H0[i].t}
              [] fault = "drop" -> {[H0 EXCEPT ![i] = [t |-> "bool", v |-> TRUE]] : i \in OptOf(n)}
              [] fault = "default" -> {[H0 EXCEPT ![i] = IF X[i].t = "omitted" THEN [t |-> "bool", v |-> FALSE] ELSE H0[i]] : i \in OptOf(n)}
              [] fault = "direction" -> IF n = "Projection" THEN {[H0 EXCEPT ![2] = Perpline(H0[1])]} ELSE {}
              [] fault = "scaled" -> {[H0 EXCEPT ![i] = IF H0[i].t = "num" THEN [H0[i] EXCEPT !.v = R2 ** H0[i].v] ELSE H0[i]] : i \in DOMAIN K}
              [] OTHER -> {H0}
  /\ UNCHANGED <<n, X, fault>>
Next == Build
RECURSIVE Flat_(_, _)
Flat_(K, s) == IF s = <<>> THEN <<>> ELSE Numbers(Head(K), Head(s)) \o Flat_(Tail(K), Tail(s))
Deriv == CASE n = "Projection" -> [t |-> "bool", v |-> (X[2].t = "none")]
           [] n = "Mobius" -> LET N == Numbers("cmat", X[1]) IN vList([i \in 1..4 |-> [t |-> "cx", v |-> <<N[2 * i - 1], N[2 * i]>>]])
           [] OTHER -> vNone
Vec(s) == [t |-> "vec", v |-> s]
Spoken == LET S == Says(n, X)[1] IN [t |-> "list", v |-> [k \in 1..Cardinality(S) |-> vStr(SetToSeq(S)[k])]]
EvW(h, sh, w) == [i |-> 0, op |-> "obj", a |-> <<vStr(n), vStr("positional"), vList(X)>>,
              r |-> vMulti(<<vList(h), Deriv, vBool(TRUE), Vec(IF n = "Shear" /\ sh # <<>> THEN VMul(X[3].v, Perp(X[2].v)) \o sh ELSE sh), Vec(sh), w>>)]
Ev(h, sh) == EvW(h, sh, Spoken)
All(h) == Flat_(Fields[n], h)
Changed == \E i \in DOMAIN X : held[i] # H0[i]
Conform == ph = "held" =>
  /\ (PostObj(Ev(held, All(H0))) = {}) <=> ~Changed
  /\ fault = "none" => LET a == All(H0) IN
       /\ PostObj(Ev(held, <<RInt(77)>> \o a)) = {}
       /\ n \notin {"Reflection", "Projection"} => PostObj(Ev(held, SubSeq(a, 1, Len(a) - 1))) # {}
Words == {"infinite", "half-line", "segment", "from a", "from b", "flat", "almost", "orthogonal", "degree", "radian"}
\* the sentences of show: one too few, or a wrong one
Spoke == (ph = "held" /\ fault = "none") =>
  LET S == Says(n, X) IN
  /\ S[1] \cap S[2] = {}
  /\ \A w \in S[1] : ~Told(n, X, vList([k \in 1..Cardinality(S[1] \ {w}) |-> vStr(SetToSeq(S[1] \ {w})[k])]))
  /\ \A w \in S[2] : ~Told(n, X, vList(<<vStr(w)>> \o Spoken.v))
Out == (Scenarios /\ ph = "held" /\ fault = "none") => \A st \in {"positional", "keyword", "mixed"} : Emit("obj", <<vStr(n), vStr(st), vList([i \in DOMAIN X |-> IF X[i].t = "mat" THEN [X[i] EXCEPT !.t = "rmat"] ELSE X[i]])>>)
=============================================================================
