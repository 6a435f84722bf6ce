------------------------------- MODULE Posts -------------------------------
(* The post-condition of every operation: the set of violated clauses.     *)
EXTENDS PObj
Post(e) ==
  CASE e.op \in PInvOps -> PostInv(e)
    [] e.op \in PMobOps -> PostMob(e)
    [] e.op \in PAffOps -> PostAff(e)
    [] e.op \in PLinOps -> PostLin(e)
    [] e.op \in PCircOps -> PostCirc(e)
    [] e.op \in PEllOps -> PostEll(e)
    [] e.op \in PTriOps -> PostTri(e)
    [] e.op \in PSteinerOps -> PostSteiner(e)
    [] e.op \in PUniOps -> PostUni(e)
    [] e.op \in PPointsOps -> PostPoints(e)
    [] e.op \in PObjOps -> PostObj(e)
    [] e.op \in PArgsOps -> PostBuild(e)
    [] OTHER -> {"unknown operation"}
=============================================================================
