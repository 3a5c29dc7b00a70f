------------------------------ MODULE FieldTrace ------------------------------
(* Judges recorded residuals and jacobians of the motion and collision costs.       *)
EXTENDS Field, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
G(ok, f) == IF ok THEN {} ELSE {f}
Near(a, b, t) == Ab(a - b) <= t
(* signed distance: value times D^2; slopes per unit length times D K (cells of K / 4) *)
Hit(e) == IF Inside(e.m, e.c, e.r, e.D)
          THEN {Value(e.m, e.c, e.r, e.D)} \cup (IF e.fuzzy /\ OnEdge(e.m, e.c, e.r, e.D) THEN {e.bv * e.D * e.D} ELSE {})
          ELSE {e.bv * e.D * e.D}
Sl(e) == [c |-> {4 * s : s \in SlopesC(e.m, e.c, e.r, e.D)}, r |-> {4 * s : s \in SlopesR(e.m, e.c, e.r, e.D)}]
SdfBad(e) == LET s == TLCEval(Sl(e)) IN
  G(e.v \in Hit(e), "distance") \cup G(e.j[1] \in s.c /\ e.j[2] \in s.r, "distance_slope")
  \cup G(e.g[1] \in s.c /\ e.g[2] \in s.r, "distance_gradient")
(* A robot in a map; lengths in quarters, the map starts at e.org with cells e.K.  Poses
   are [x, y, c, s, n] with rotation (c, s) / n.  Place gives where in the map the robot
   is, in cells over D, and the derivative of that position, times td, for each pose.  *)
Frame(o, p) == <<o.c * (p.x - o.x) + o.s * (p.y - o.y), o.c * (p.y - o.y) - o.s * (p.x - o.x)>>   \* times o.n
Place(e) ==
  IF e.kind = "coll" THEN LET p == e.poses[1] IN
    [c |-> p.x - e.org[1], r |-> p.y - e.org[2], D |-> e.K, td |-> p.n,
     T |-> IF e.point THEN << << <<1, 0>>, <<0, 1>> >> >> ELSE << << <<p.c, -p.s, 0>>, <<p.s, p.c, 0>> >> >>]
  ELSE LET o == e.poses[1] f == e.poses[2] q == Frame(o, f) u == 4 * o.n * f.n
           rc == 4 * (o.c * f.c + o.s * f.s) rs == 4 * (o.c * f.s - o.s * f.c) IN
    [c |-> q[1] - o.n * e.org[1], r |-> q[2] - o.n * e.org[2], D |-> o.n * e.K, td |-> u,
     T |-> << << <<-u, 0, f.n * q[2]>>, <<0, -u, -f.n * q[1]>> >>, << <<rc, -rs, 0>>, <<rs, rc, 0>> >> >>]
Contacts(e, d2, D) ==      \* derivative of the residual with respect to the distance, at distance d2 / D^2
  LET x == 4 * d2 y == e.lim * D * D IN
  IF e.kind = "coll" THEN (IF x < y THEN {-1} ELSE IF x > y THEN {0} ELSE {0, -1})
  ELSE (IF x < y THEN {-1} ELSE IF x > y THEN {1} ELSE {-1, 0, 1})
Resid(e, d2, D) == LET x == 4 * d2 y == e.lim * D * D IN IF e.kind = "coll" THEN Mx(0, y - x) ELSE Ab(x - y)
RobotBad(e) ==
  LET q == TLCEval(Place(e)) z == TLCEval([m |-> e.m, c |-> q.c, r |-> q.r, D |-> q.D, bv |-> 0, fuzzy |-> e.fuzzy])
      h == TLCEval(Hit(z)) s == TLCEval(Sl(z)) IN
  G(e.D = q.D /\ e.td = q.td, "scales") \cup
  G(\E d2 \in h : e.v = Resid(e, d2, q.D), e.kind \o "_error") \cup
  G(\E d2 \in h : \E k \in Contacts(e, d2, q.D) : \E a \in s.c \cup (IF e.fuzzy /\ OnEdge(z.m, z.c, z.r, z.D) THEN {0} ELSE {}), b \in s.r \cup (IF e.fuzzy /\ OnEdge(z.m, z.c, z.r, z.D) THEN {0} ELSE {}) :
      \A w \in DOMAIN q.T : e.j[w] = [i \in DOMAIN q.T[w][1] |-> k * (a * q.T[w][1][i] + b * q.T[w][2][i])], e.kind \o "_jacobian")
EdtBad(e) == G(e.out = Transform(e.o), "distance_transform")
HingeBad(e) == G(e.v = [i \in DOMAIN e.x |-> Hinge(e.x[i], e.lo[i], e.hi[i], e.th[i])], "hinge_error") \cup
  G(\A i, k \in DOMAIN e.x : IF i = k THEN e.j[i][k] \in HingeSlopes(e.x[i], e.lo[i], e.hi[i], e.th[i]) ELSE e.j[i][k] = 0, "hinge_jacobian")
(* numbers a + b pi / 2 in fixed point 1 / 10000 *)
Num(p) == 10000 * p[1] + 15708 * p[2]
Tol(p, t) == t + Ab(p[2])
PushBad(e) == LET v == TLCEval(PushError(e)) J == TLCEval(PushJac(e)) IN
  G(\A i \in 1..3 : Near(e.v[i], Num(v[i]), Tol(v[i], e.tol)), "push_error") \cup
  UNION {G(\A r, i \in 1..3 : Near(e.j[w][r][i], Num(J[w][r][i]), Tol(J[w][r][i], e.tol)), "push_jacobian_" \o ToString(w)) : w \in 1..4}
(* non-holonomic: sideways velocity; heading e.k quarter turns (k = 0 for SE(2)) *)
SideBad(e) == G(e.v = Turn(-e.k, e.u)[2], "sideways_error") \cup
  G(e.j = << <<0, 0, IF e.se2 THEN 0 ELSE -Turn(-e.k, e.u)[1]>>, <<-Sin(e.k), Cos(e.k), 0>> >>, "sideways_jacobian")
(* Gaussian-process weighting: e.A = W' W, e.b = W' (W err), e.C = W' (W jac), times a^3 *)
GpBad(e) == LET I == TLCEval(GPInfo(e.Q, e.a, e.b)) IN
  G(e.A = I, "prior_information") \cup G(e.we = MatVec(I, e.err), "prior_error") \cup
  UNION {G(e.wj[k] = MatMat(I, e.jac[k]), "prior_jacobian") : k \in DOMAIN e.jac}
Judge(e) ==
  CASE e.op = "sdf" -> SdfBad(e) [] e.op = "robot" -> RobotBad(e) [] e.op = "edt" -> EdtBad(e) [] e.op = "hinge" -> HingeBad(e)
    [] e.op = "push" -> PushBad(e) [] e.op = "side" -> SideBad(e) [] e.op = "gp" -> GpBad(e)
    [] e.op = "outcome" -> G(e.res = e.exp, e.what)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET b == TLCEval(Judge(Trace[l])) IN
           IF b = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, clauses |-> SetToSeq(b)]))
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
