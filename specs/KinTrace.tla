------------------------------- MODULE KinTrace -------------------------------
(* Judges what kinematics code computed: every observation is an integer, the value
   times the denominator the specification gives it.                              *)
EXTENDS Kin, SequencesExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Has(e, f) == f \in DOMAIN e
(* sums over the selected links, over the common denominator e.K of their poses *)
InnerM(A, B) == LET F(i) == A[i][1] * B[i][1] + A[i][2] * B[i][2] + A[i][3] * B[i][3] + A[i][4] * B[i][4] IN F(1) + F(2) + F(3)
Inner6(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3] + a[4] * b[4] + a[5] * b[5] + a[6] * b[6]
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
Pull(e, P, D(_)) == Total([k \in DOMAIN e.sel |-> InnerM(e.W[k], D(e.sel[k])) * (e.K \div P[e.sel[k] + 1].d)])
Clauses(e) ==
  LET r == e.r P == TLCEval(Poses(r, e.q)) S == DOMAIN e.sel J == DOMAIN r
      Good(f, v) == IF ~Has(e, f) \/ e[f] = v THEN {} ELSE {f} IN
  Good("pose", [k \in S |-> P[e.sel[k] + 1].m])
  \cup Good("spatial", [k \in S |-> [j \in J |-> Flat(JacS(r, P, e.sel[k], j))]])
  \cup Good("body", [k \in S |-> [j \in J |-> Flat(JacB(r, P, e.sel[k], j))]])
  \cup Good("grad", [j \in J |-> LET D(i) == DPose(r, P, i, j) IN Pull(e, P, D)])
  \cup (IF ~Has(e, "hess") THEN {}
        ELSE Good("hess", [a \in J |-> [b \in J |-> LET D(i) == DDPose(r, P, i, a, b) IN Pull(e, P, D)]]))
  \cup (IF ~Has(e, "dspatial") THEN {}
        ELSE Good("dspatial", [a \in J |-> IF Movable(r[a]) THEN Inner6(e.V, Flat(DJacS(r, P, e.sel[e.kj[1]], e.kj[2], a))) ELSE 0]))
  \cup (IF ~Has(e, "dbody") THEN {}
        ELSE Good("dbody", [a \in J |-> IF Movable(r[a]) THEN Inner6(e.V, Flat(DJacB(r, P, e.sel[e.kj[1]], e.kj[2], a))) ELSE 0]))
RangeOf(s) == {s[i] : i \in DOMAIN s}
Structure(e) ==
  LET r == e.r n == Len(r) mv == {i \in 1..n : Movable(r[i])} C(ok, f) == IF ok THEN {} ELSE {f} IN
  C(e.dof = Dof(r), "dof")
  \cup C({e.ids[i] : i \in mv} = 0..(Dof(r) - 1), "column_ids")
  \cup C(RangeOf(e.ids) = 0..(n - 1) /\ e.nj = n, "joint_ids")
  \cup C(RangeOf(e.lids) = 0..n /\ e.nl = n + 1 /\ e.lids[1] = 0, "link_ids")
  \cup C(\A i \in 0..n : RangeOf(e.anc[i + 1]) = {j \in RangeOf(Path(r, i)) : Movable(r[j])}, "moving_joints")
  \cup C(\A i \in mv : e.axis[i] = Flat(Unit(r[i])), "axis")
Judge(e) ==
  CASE e.op = "kin" -> Clauses(e)
    [] e.op = "robot" -> Structure(e)
    [] e.op = "rel" -> (IF e.T = Rel(e.j, e.q).m THEN {} ELSE {"relative_pose"})
    [] e.op = "outcome" -> (IF e.res = e.exp THEN {} ELSE {e.what})
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET b == TLCEval(Judge(Trace[l])) IN
           IF b = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, clauses |-> SetToSeq(b)]))
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
