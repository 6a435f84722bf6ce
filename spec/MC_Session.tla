----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* Histories of a session with one object of value v, a fresh copy of it,  *)
(* and other calls, on an implementation that may be faulty:               *)
(*   "none"    results are a function of the current value                 *)
(*   "cache"   the first result is kept although the object has changed    *)
(*   "mutate"  a call changes its receiver                                 *)
(*   "other"   a call changes another object                               *)
(*   "random"  a call draws from the global generator                      *)
(*   "history" the result depends on the number of earlier calls           *)
(*   "alias"   the object shares the array arr it was built from           *)
(* The specification of sessions must accept every step of the first and   *)
(* reject the step at which one of the others shows.  The histories are    *)
(* replayed on the library's operations.                                   *)
(***************************************************************************)
EXTENDS PSession, Scen
CONSTANTS Depth, Scenarios
S(x) == ToString(x)
VARIABLES bug, hist, v, v0, arr, other, cache, count, r, heap, rng, memo, bad, shown
vars == <<bug, hist, v, v0, arr, other, cache, count, r, heap, rng, memo, bad, shown>>
H(a, b, c) == [obj |-> S(a), oth |-> S(b), arr |-> S(c)]
Init == /\ bug \in {"none", "cache", "mutate", "other", "random", "history", "alias"}
        /\ hist = <<>> /\ v = 0 /\ v0 = 0 /\ arr = 0 /\ other = 0 /\ cache = -1 /\ count = 0 /\ r = 0
        /\ heap = H(0, 0, 0) /\ rng = S(0) /\ memo = (<<"">> :> <<"">>) /\ bad = {} /\ shown = FALSE
StepA(e, vv, oo, rr, aa) ==
  /\ bad' = Judge(heap, rng, memo, e) /\ heap' = e.after /\ rng' = e.rng /\ memo' = Memo(memo, e)
  /\ v' = vv /\ other' = oo /\ r' = rr /\ v0' = v0 /\ bug' = bug /\ arr' = aa
Step(e, vv, oo, rr) == StepA(e, vv, oo, rr, arr)
E(k, key, res, vv, oo, rr) == [k |-> k, key |-> key, res |-> S(res), rngb |-> S(r), rng |-> S(rr), after |-> H(vv, oo, arr), target |-> "obj"]
F(x) == 10 + x
Call ==
  LET res == CASE bug = "cache" /\ cache >= 0 -> F(cache) [] bug = "history" /\ count >= 2 -> F(v) + 100 [] OTHER -> F(v)
      vv == IF bug = "mutate" THEN 7 ELSE v
      oo == IF bug = "other" THEN 7 ELSE other
      rr == IF bug = "random" THEN r + 1 ELSE r
  IN /\ Step(E("call", "f" \o S(v), res, vv, oo, rr), vv, oo, rr)
     /\ cache' = (IF cache < 0 THEN v ELSE cache) /\ count' = count + 1
     /\ shown' = (vv # v \/ oo # other \/ rr # r \/ (<<"f" \o S(v)>> \in DOMAIN memo /\ memo[<<"f" \o S(v)>>] # <<S(res)>>))
Fresh == Step(E("call", "f" \o S(v), F(v), v, other, r), v, other, r) /\ UNCHANGED <<cache, count>>   \* a freshly built copy
         /\ shown' = (<<"f" \o S(v)>> \in DOMAIN memo /\ memo[<<"f" \o S(v)>>] # <<S(F(v))>>)
First == Step([E("first", "f" \o S(v), F(v), v, other, r) EXCEPT !.target = ""] @@ [draws |-> FALSE, before |-> "x", argsafter |-> "x", rng1 |-> S(r)], v, other, r)
         /\ UNCHANGED <<cache, count>> /\ shown' = (<<"f" \o S(v)>> \in DOMAIN memo /\ memo[<<"f" \o S(v)>>] # <<S(F(v))>>)
Set == Step(E("set", "", 0, 1 - v, other, r), 1 - v, other, r) /\ UNCHANGED <<cache, count>> /\ shown' = FALSE
Other == Step(E("call", "g", 5, v, other, r), v, other, r) /\ UNCHANGED <<cache, count>> /\ shown' = FALSE
Draw == Step(E("draw", "d", 50 + r, v, other, r + 3), v, other, r + 3) /\ UNCHANGED <<cache, count>> /\ shown' = FALSE
Seed == Step(E("seed", "", 0, v, other, 0), v, other, 0) /\ UNCHANGED <<cache, count>> /\ shown' = FALSE
\* the caller writes into the array the object was built from
Write == LET vv == IF bug = "alias" THEN 1 - v ELSE v IN
  /\ StepA([k |-> "write", key |-> "", res |-> "0", rngb |-> S(r), rng |-> S(r), after |-> H(vv, other, 1 - arr), target |-> "", targets |-> <<"arr">>], vv, other, r, 1 - arr)
  /\ UNCHANGED <<cache, count>> /\ shown' = (vv # v)
Next == /\ Len(hist) < Depth /\ bad = {} /\ (bug = "mutate" => v # 7) 
        /\ \/ Call /\ hist' = Append(hist, "call")
           \/ Fresh /\ hist' = Append(hist, "fresh")
           \/ First /\ hist' = Append(hist, "first")
           \/ Set /\ hist' = Append(hist, "set")
           \/ Other /\ hist' = Append(hist, "other")
           \/ Draw /\ hist' = Append(hist, "draw")
           \/ Write /\ hist' = Append(hist, "write")
           \/ Seed /\ hist' = Append(hist, "seed")
Sound == bug = "none" => bad = {}
Detects == shown <=> bad # {}
Out == (Scenarios /\ bug = "none" /\ Len(hist) = Depth /\ \E i \in 1..Depth : hist[i] \in {"call", "fresh", "first"}) => Emit("session", hist)
=============================================================================
