------------------------------ MODULE PSession ------------------------------
(***************************************************************************)
(* P22: a session with the library.  The state is the heap (the value of   *)
(* every object, array and list the session holds), numpy's global random  *)
(* state, and the memo of the results seen so far: the result of a call    *)
(* is a function of the operation and of the values of its arguments       *)
(* (and of the random state, for the functions that draw numbers).         *)
(*   call   nothing changes but the memo                                   *)
(*   draw   the random state may change, as a function of itself           *)
(*   set    the user reassigns an attribute of one object                  *)
(*   write  the caller writes into an array it holds: one it passed to a   *)
(*          constructor or a call, or one a call returned                  *)
(*   new    objects are added                                              *)
(*   seed   the user seeds numpy's generator                               *)
(*   first  the call is made as the very first one of another process: the *)
(*          session is not touched, and the memo outlives the process      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC
Unchanged(heap, after, except) == \A o \in DOMAIN heap \ except : o \in DOMAIN after /\ after[o] = heap[o]
Targets(e) == CASE e.k = "set" -> {e.target} [] e.k = "write" -> {e.targets[i] : i \in DOMAIN e.targets} [] OTHER -> {}
Calls(e) == e.k \in {"call", "draw", "first"}
Draws(e) == e.k = "draw" \/ (e.k = "first" /\ e.draws)
Key(e) == IF Draws(e) THEN <<e.key, e.rngb>> ELSE <<e.key>>
Val(e) == IF e.k = "first" THEN (IF e.draws THEN <<e.res, e.rng1>> ELSE <<e.res>>) ELSE IF e.k = "draw" THEN <<e.res, e.rng>> ELSE <<e.res>>
Has(memo, e) == Calls(e) /\ Key(e) \in DOMAIN memo
Judge(heap, rng, memo, e) ==
  (IF Unchanged(heap, e.after, Targets(e)) THEN {} ELSE {"objects-unchanged"})
  \cup (IF e.k \in {"draw", "seed"} \/ e.rng = rng THEN {} ELSE {"numpy-random-state-unchanged"})
  \cup (IF e.k = "first" => (e.argsafter = e.before /\ (e.draws \/ e.rng1 = e.rngb)) THEN {} ELSE {"first-call-changes-nothing"})
  \cup (IF Has(memo, e) => memo[Key(e)] = Val(e) THEN {} ELSE {"same-arguments-same-result"})
Memo(memo, e) == IF Calls(e) /\ ~Has(memo, e) THEN memo @@ (Key(e) :> Val(e)) ELSE memo
=============================================================================
