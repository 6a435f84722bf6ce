-------------------------------- MODULE Scen --------------------------------
(* Scenarios: the calls a model reaches are written to the file $SCEN, one *)
(* JSON object per line, and replayed on the real library by the driver.   *)
EXTENDS Integers, TLC, CSV, Json, IOUtils, Sequences
Emit(op, args) == CSVWrite("%1$s", <<ToJson([op |-> op, a |-> args])>>, IOEnv.SCEN)
vPt(p) == [t |-> "pt", v |-> p]
vVec(p) == [t |-> "vecd", v |-> p]
vInf == [t |-> "inf"]
vLen(r) == [t |-> "len", v |-> r]
vNum(r) == [t |-> "num", v |-> r]
vInt(i) == [t |-> "int", v |-> i]
vAngD(i) == [t |-> "angd", v |-> i]    \* degrees
vBool(b) == [t |-> "bool", v |-> b]
vStr(s) == [t |-> "str", v |-> s]
vNone == [t |-> "none"]
vCircle(c, r) == [t |-> "circle", c |-> c, r |-> r]
vLine(A, B) == [t |-> "line", A |-> A, B |-> B, ea |-> TRUE, eb |-> TRUE]
vLineE(A, B, x, y) == [t |-> "line", A |-> A, B |-> B, ea |-> x, eb |-> y]
vInv(o, k) == [t |-> "inv", o |-> o, k |-> k]
vTri(A, B, C) == [t |-> "tri", A |-> A, B |-> B, C |-> C]
vMob(M) == [t |-> "mob", m |-> M]
vAff(f) == [t |-> "aff", A |-> <<<<f[1], f[2]>>, <<f[3], f[4]>>>>, b |-> <<f[5], f[6]>>]
vEll(c, a, b, u) == [t |-> "ell", c |-> c, a |-> a, b |-> b, u |-> u, deg |-> TRUE, al |-> <<0, <<>>, <<1>>>>]
vMulti(s) == [t |-> "multi", v |-> s]
vList(s) == [t |-> "list", v |-> s]
IsSkip(S) == \E b \in S : Len(b) >= 5 /\ SubSeq(b, 1, 5) = "SKIP:"
Accepted(S) == S = {} \/ IsSkip(S)
Rejected(S) == S # {} /\ ~IsSkip(S)
=============================================================================
