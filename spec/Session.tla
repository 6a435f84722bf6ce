------------------------------ MODULE Session ------------------------------
(* Validation of recorded sessions: every recorded step must be a step of  *)
(* PSession from the state the specification has reached.                  *)
EXTENDS PSession, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Events)
Lanes == 16
First == [l \in 1..Lanes |-> LET S == {i \in 1..N : Events[i].lane = l} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j]
VARIABLES pos, lane, heap, rng, memo
vars == <<pos, lane, heap, rng, memo>>
Nothing == [none |-> "none"]
Init == lane \in 1..Lanes /\ pos = First[lane] /\ heap = Nothing /\ rng = "" /\ memo = (<<"">> :> <<"">>)
E == Events[pos]
Start == E.op = "start"
Next ==
  /\ pos > 0 /\ pos <= N
  /\ E.lane = lane
  /\ LET bad == IF Start THEN {} ELSE Judge(heap, rng, memo, E) IN IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", E.i, E.op, bad>>)
  /\ heap' = E.after /\ rng' = E.rng
  /\ memo' = IF Start THEN (<<"">> :> <<"">>) ELSE Memo(memo, E)
  /\ pos' = pos + 1 /\ lane' = lane
=============================================================================
