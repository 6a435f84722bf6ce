------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation.  A recorded session of the library is a sequence of   *)
(* calls (arguments and outcome, exact rationals).  The specification's    *)
(* step for a call is enabled when the outcome satisfies the operation's   *)
(* post-condition; a call whose outcome no step allows is reported with    *)
(* the clauses it violates.  The file is dealt out to Lanes initial states *)
(* so that TLC validates the lanes in parallel.                            *)
(***************************************************************************)
EXTENDS Posts, Json, IOUtils, TLC

Events == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Events)
Lanes == 16

VARIABLES pos, lane
vars == <<pos, lane>>

Report(e, bad) ==
  IF bad = {} THEN TRUE
  ELSE IF \A b \in bad : Len(b) >= 5 /\ SubSeq(b, 1, 5) = "SKIP:"
       THEN PrintT(<<"SKIP", e.i, bad>>)
       ELSE PrintT(<<"REJECT", e.i, e.op, bad>>)

Init == lane \in 1..Lanes /\ pos = lane
Next == /\ pos <= N
        /\ Report(Events[pos], Post(Events[pos]))
        /\ pos' = pos + Lanes /\ lane' = lane
=============================================================================
