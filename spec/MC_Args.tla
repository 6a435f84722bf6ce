------------------------------ MODULE MC_Args ------------------------------
(***************************************************************************)
(* A call is assembled argument by argument, each of a kind of its         *)
(* parameter's type or, at most Faults times, of a kind the type refuses   *)
(* (or a point given twice).  At most Variants arguments are other than    *)
(* the first accepted kind.  Complete calls are replayed.                  *)
(***************************************************************************)
EXTENDS PArgs, Scen
CONSTANTS Faults, Variants, Total, Scenarios
VARIABLES name, kinds, faults, variants
vars == <<name, kinds, faults, variants>>
Default(t) == CASE t \in {"point", "points"} -> "pair-of-ints" [] t \in {"number", "coef", "positive"} -> "int" [] t \in {"flag=T", "open=T"} -> "true" [] t \in {"flag=F", "open=F", "fixed=F"} -> "false" [] t \in {"count", "count=100"} -> "positive-int" [] t = "number*" -> "int"
                [] t = "matrix" -> "rows" [] t = "shear-angle" -> "one-half" [] OTHER -> "ok"
Init == name \in Names /\ kinds = <<>> /\ faults = 0 /\ variants = 0
Next ==
  LET i == Len(kinds) + 1 IN
  /\ i <= Len(Sigs[name]) /\ UNCHANGED name
  /\ LET t == Sigs[name][i] IN
     IF i > 1 /\ kinds[i - 1] = "omitted" THEN kinds' = Append(kinds, "omitted") /\ UNCHANGED <<faults, variants>> ELSE
     \/ kinds' = Append(kinds, Default(t)) /\ UNCHANGED <<faults, variants>>
     \/ variants < Variants /\ faults + variants < Total /\ \E k \in Good(t) \ {Default(t)} : kinds' = Append(kinds, k) /\ variants' = variants + 1 /\ UNCHANGED faults
     \/ faults < Faults /\ faults + variants < Total /\ \E k \in Bad(t) : kinds' = Append(kinds, k) /\ faults' = faults + 1 /\ UNCHANGED variants
     \/ faults = 0 /\ variants < Total /\ name \in DOMAIN Distinct
        /\ \E j \in 1..(i - 1) : <<j, i>> \in Distinct[name] /\ kinds[j] \in Good("point") /\ kinds' = Append(kinds, Same[j]) /\ faults' = Faults /\ UNCHANGED variants
Done == Len(kinds) = Len(Sigs[name])
Disjoint == \A i \in DOMAIN kinds : LET t == Sigs[name][i] IN Good(t) \cap Bad(t) = {} /\ Default(t) \in Good(t)
Law == Done => ((faults = 0 /\ ~ShearBad(name, kinds)) <=> WellFormed(name, kinds))
KindList(K) == [t |-> "list", v |-> [i \in DOMAIN K |-> vStr(K[i])]]
Ev(r) == [i |-> 0, op |-> "build", a |-> <<vStr(name), KindList(kinds), KindList(Explicit(name, kinds))>>, r |-> [t |-> "multi", v |-> r]]
Raise == [t |-> "raise", e |-> "ValueError"]
Conform == Done =>
  IF WellFormed(name, kinds) THEN PostBuild(Ev(<<vInt(1), vInt(1)>>)) = {} /\ PostBuild(Ev(<<vInt(1), vInt(2)>>)) # {} /\ PostBuild(Ev(<<Raise, Raise>>)) # {}
  ELSE PostBuild(Ev(<<Raise, Raise>>)) = {} /\ PostBuild(Ev(<<vInt(1), vInt(1)>>)) # {}
Out == (Scenarios /\ Done) => Emit("build", <<vStr(name), KindList(kinds), KindList(Explicit(name, kinds))>>)
=============================================================================
