------------------------------- MODULE MeasMC -------------------------------
(* Histories of five poses a, b, f, g, m moved by group steps.  Residuals of the
   measurement costs over them: Local(a; m), Between(a, b; m) and
   MovingFrameBetween(f, g, a, b; m).  Every step is replayed on the real costs.   *)
EXTENDS PoseAlg, Json
CONSTANTS TY, DEPTH
VARIABLES x, act
Names == {"a", "b", "f", "g", "m"}
Gens == TLCEval(
  CASE TY = "SO2" -> <<Pose(<<1, 0, 0, 1>>, <<0, 0, 0>>, 1), Pose(<<2, 0, 0, 1>>, <<0, 0, 0>>, 1)>>
    [] TY = "SE2" -> <<Pose(<<1, 0, 0, 1>>, <<1, 0, 0>>, 1), Pose(<<2, 0, 0, -1>>, <<0, 1, 0>>, 1)>>
    [] TY = "SO3" -> <<Pose(<<1, 1, 0, 0>>, <<0, 0, 0>>, 1), Pose(<<1, 0, 0, -1>>, <<0, 0, 0>>, 1)>>
    [] TY = "SE3" -> <<Pose(<<1, 1, 0, 0>>, <<1, 0, 0>>, 1), Pose(<<1, 0, 0, -1>>, <<0, 1, 1>>, 1)>>)
Resid(s) == [local |-> LocalE(s.m, s.a), between |-> BetweenE(s.a, s.b, s.m), frame |-> FrameE(s.f, s.g, s.a, s.b, s.m)]
InTable(p) == LET q == Pos(p.q) v == Vec(q) IN q[1] <= 3 /\ Dot(v, v) <= 14
Ok(s) == LET e == Resid(s) IN InTable(e.local) /\ InTable(e.between) /\ InTable(e.frame)
Init == x = [n \in Names |-> PoseOne] /\ act = [v |-> "init", g |-> 0, op |-> "init"]
Step(v, g, op) ==
  LET y == TLCEval([x EXCEPT ![v] = IF op = "right" THEN PoseMul(@, Gens[g]) ELSE PoseMul(PoseInv(Gens[g]), @)]) IN
  Ok(y) /\ x' = y /\ act' = [v |-> v, g |-> g, op |-> op]
Next == \E v \in Names, g \in 1..2 : Step(v, g, "right") \/ Step(v, g, "left")
Spec == Init /\ [][Next]_<<x, act>>
View == x
Bound == TLCGet("level") < DEPTH

(* the quaternion algebra agrees with the matrix algebra *)
Agree == /\ \A n \in Names : Same(ElOf(TY, PoseMul(x[n], x.m)), Mul(ElOf(TY, x[n]), ElOf(TY, x.m)))
         /\ \A n \in Names : Same(Mul(ElOf(TY, x[n]), ElOf(TY, PoseInv(x[n]))), One(TY))
(* vanishing residuals are exact predictions *)
Zero == LET e == Resid(x) IN
  /\ (e.local = PoseOne) <=> (x.a = x.m)
  /\ (e.between = PoseOne) <=> (PoseMul(x.a, x.m) = x.b)
  /\ x.f = x.g => e.frame = e.between
(* gauge freedom: a common change of the world frame changes nothing *)
Gauge == LET k == 1 h(p) == PoseMul(Gens[k], p) IN
  /\ LocalE(h(x.m), h(x.a)) = LocalE(x.m, x.a)
  /\ BetweenE(h(x.a), h(x.b), x.m) = BetweenE(x.a, x.b, x.m)
  /\ FrameE(h(x.f), x.g, h(x.a), x.b, x.m) = FrameE(x.f, x.g, x.a, x.b, x.m)
  /\ FrameE(x.f, h(x.g), x.a, h(x.b), x.m) = FrameE(x.f, x.g, x.a, x.b, x.m)
Theorems == IF Bound THEN Agree /\ Zero /\ Gauge ELSE TRUE
Logs(p) == <<Pick(TY, LogP(p, 1)), Pick(TY, LogP(p, IF p.q[1] = 0 THEN -1 ELSE 1))>>
Obs == LET y == TLCEval(x') e == TLCEval(Resid(y)) IN [local |-> Logs(e.local), between |-> Logs(e.between), frame |-> Logs(e.frame)]
Edge == (IF act.op = "init" THEN PrintT(ToJson([init |-> x])) ELSE TRUE)
        /\ PrintT(ToJson([s |-> x, a |-> act', t |-> x', o |-> Obs]))
=============================================================================
