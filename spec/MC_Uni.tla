------------------------------- MODULE MC_Uni -------------------------------
(***************************************************************************)
(* The Stern-Brocot tree: a state is a pair of neighbouring fractions and  *)
(* a step inserts the mediant, while the denominators stay within n.  The  *)
(* pairs it reaches are exactly those of determinant one (Complete).       *)
(***************************************************************************)
EXTENDS PUni, Scen
CONSTANTS Max, Brute, Big, Scenarios
VARIABLES n, p, q
vars == <<n, p, q>>
Init == n \in 1..Max /\ p = <<1, 0>> /\ q = <<1, 1>>
Next == p[1] + q[1] <= n /\ n' = n /\ ((p' = p /\ q' = Med(p, q)) \/ (p' = Med(p, q) /\ q' = q))
M == MatOf(p, q)
DetLaw == DetI(M) = 1 /\ (\A i \in 1..4 : M[i] \in 0..n) /\ p[2] * q[1] < q[2] * p[1] /\ p[2] <= p[1] /\ q[2] <= q[1]
Member == M \in FareyPairs(n)
Pairs(k) == LET F == {x \in (1..k) \X (0..k) : x[2] <= x[1]} IN {MatOf(a, b) : <<a, b>> \in {y \in F \X F : (y[1][1] * y[2][2]) - (y[1][2] * y[2][1]) = 1}}
ASSUME Complete == \A k \in 1..Brute : Pairs(k) = FareyPairs(k)
SeqOf(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
Ev(k, L, b) == [i |-> 0, op |-> "uni", a |-> <<[t |-> "num", v |-> RInt(k)]>>,
                r |-> [t |-> "multi", v |-> <<[t |-> "imats", v |-> L], [t |-> "bool", v |-> b]>>]]
ASSUME Conform == \A k \in {2, 3, 5, 8} :
  LET L == SeqOf(FareyPairs(k))  I == <<Identity>> IN
  /\ PostUni(Ev(k, I \o L, TRUE)) = {} /\ PostUni(Ev(k, I \o L, FALSE)) # {}
  /\ PostUni(Ev(k, L, TRUE)) # {} /\ PostUni(Ev(k, I \o L \o <<L[1]>>, TRUE)) # {}
  /\ PostUni(Ev(k, I \o Tail(L), TRUE)) # {} /\ PostUni(Ev(k, I \o L \o <<<<1, 1, 0, 1>>>>, TRUE)) # {}
  /\ PostUni(Ev(k, I \o SeqOf(FareyPairs(k - 1)), TRUE)) # {}
Out == (Scenarios /\ p = <<1, 0>> /\ q = <<1, 1>>) => \A k \in {x \in 1..Big : (x % Max) + 1 = n} : Emit("uni", <<vInt(k)>>)
=============================================================================
