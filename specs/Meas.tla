------------------------------- MODULE Meas -------------------------------
(* Judges recorded errors and jacobians of the measurement costs (P16).            *)
EXTENDS Lie, PoseAlg

P(e, i) == PoseOf(e.ty, e.els[i])
ResidOf(e) ==
  CASE e.kind = "local" -> LocalE(P(e, 2), P(e, 1))                       \* var, target
    [] e.kind = "between" -> BetweenE(P(e, 1), P(e, 2), P(e, 3))
    [] e.kind = "frame" -> FrameE(P(e, 1), P(e, 2), P(e, 3), P(e, 4), P(e, 5))
ResidBad(e) ==
  LET p == TLCEval(Strip(e.ty, ResidOf(e)))
      a == TLCEval(Pick(e.ty, LogP(p, 1))) b == TLCEval(Pick(e.ty, LogP(p, -1))) IN
  \* the fixed-point logarithm carries rounding proportional to the translation
  LET tol == e.tol + 2 + Abs(p.t[1]) \div p.d + Abs(p.t[2]) \div p.d + Abs(p.t[3]) \div p.d IN
  F(NearV(e.out, a, tol) \/ (p.q[1] = 0 /\ NearV(e.out, b, tol)), e.kind \o "_error")
(* real vector groups *)
VAdd(u, v) == [i \in DOMAIN u |-> u[i] + v[i]]
VSub(u, v) == [i \in DOMAIN u |-> u[i] - v[i]]
VecResid(e) ==
  CASE e.kind = "local" -> VSub(e.v[1], e.v[2])
    [] e.kind = "between" -> VSub(VSub(e.v[2], e.v[1]), e.v[3])
    [] e.kind = "frame" -> VSub(VSub(VSub(e.v[4], e.v[2]), VSub(e.v[3], e.v[1])), e.v[5])
VecSigns(e) == CASE e.kind = "local" -> <<1>> [] e.kind = "between" -> <<-1, 1>> [] e.kind = "frame" -> <<1, -1, -1, 1>>
VecCostBad(e) ==
  F(NearV(e.out, SM(VecResid(e)), e.tol), e.kind \o "_vector_error") \cup
  F(\A k \in DOMAIN e.j : NearM(e.j[k], Scale(IdM(Len(e.out)), S * VecSigns(e)[k]), e.tol), e.kind \o "_vector_jacobian")

(* derivative of the measured group difference (before the logarithm) *)
AdP(ty, p) == LET x == ElOf(ty, p) xi == ElOf(ty, PoseInv(p)) IN Conj(ty, x, xi)
FrameDiffJac(e) ==
  LET b1 == PoseBetween(P(e, 1), P(e, 3)) b2 == PoseBetween(P(e, 2), P(e, 4)) d == PoseBetween(b1, b2)
      A1 == AdP(e.ty, PoseInv(d)) A3 == AdP(e.ty, PoseInv(b2)) IN
  << FixM(A3), FixM(Neg(A3)),   \* Ad(d^-1) Ad(b1^-1) = Ad(b2^-1)
     FixM(Neg(A1)), Scale(IdM(Dof(e.ty)), S) >>
(* jacobians against recorded derivatives of the error; a moving-frame jacobian that is
   exactly the derivative of the group difference is told apart                        *)
JacBad(e) ==
  IF \A k \in DOMAIN e.j : NearM(e.j[k], e.D[k], e.tol) THEN {}
  ELSE IF e.kind = "frame" /\ LET G == TLCEval(FrameDiffJac(e)) IN \A k \in DOMAIN e.j : NearM(e.j[k], G[k], e.tol)
       THEN {"frame_jacobian_of_group_difference"}
       ELSE {e.kind \o "_jacobian_" \o ToString(k) : k \in {i \in DOMAIN e.j : ~NearM(e.j[i], e.D[i], e.tol)}}
FastBad(e) == F(e.j = IdM(Len(e.j)), "local_fast_jacobian")

(* ------------------------------------------------ pinhole camera, exact rationals *)
RECURSIVE G2(_, _)
G2(a, b) == IF b = 0 THEN Abs(a) ELSE G2(b, a % b)
Rat(n, d) == LET g == G2(Abs(n), Abs(d)) s == IF d < 0 THEN -1 ELSE 1 IN <<s * (n \div g), s * (d \div g)>>
Q(n) == <<n, 1>>
RAdd(a, b) == LET g == G2(a[2], b[2]) IN Rat(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RMul(a, b) == LET g == TLCEval(G2(Abs(a[1]), b[2])) h == TLCEval(G2(Abs(b[1]), a[2])) IN
  <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
RNeg(a) == <<-a[1], a[2]>>
RFix(a) == Fix(a[1], a[2])
(* camera coordinates (x, y, z), image point p = -(x, y) / z, distortion 1 + s (k1 + s k2) *)
Cam(e) == LET a == Act("SE3", El("SE3", e.q, e.t), e.p) IN [i \in 1..3 |-> Rat(a.v[i], a.d)]
Project(c) == LET z == <<c[3][2], c[3][1]>> iz == IF z[2] < 0 THEN <<-z[1], -z[2]>> ELSE z IN
  <<RNeg(RMul(c[1], iz)), RNeg(RMul(c[2], iz))>>
Sq(p) == RAdd(RMul(p[1], p[1]), RMul(p[2], p[2]))
Gain(e, s) == RMul(Q(e.f), RAdd(Q(1), RMul(s, RAdd(Q(e.k1), RMul(s, Q(e.k2))))))
DGain(e, s) == RMul(Q(e.f), RAdd(Q(e.k1), RMul(Q(2 * e.k2), s)))   \* d gain / d s
CamErr(e) == LET c == TLCEval(Cam(e)) p == TLCEval(Project(c)) g == TLCEval(Gain(e, TLCEval(Sq(p)))) IN
  [i \in 1..2 |-> RFix(RAdd(RMul(p[i], g), Q(-e.feat[i])))]
(* d error / d camera point *)
DCam(e) ==
  LET c == TLCEval(Cam(e)) p == TLCEval(Project(c)) s == TLCEval(Sq(p)) g == TLCEval(Gain(e, s)) h == TLCEval(DGain(e, s))
      iz == IF c[3][1] < 0 THEN <<-c[3][2], -c[3][1]>> ELSE <<c[3][2], c[3][1]>>
      dp == TLCEval(<< <<RNeg(iz), Q(0), RNeg(RMul(p[1], iz))>>, <<Q(0), RNeg(iz), RNeg(RMul(p[2], iz))>> >>)
      dd(i, j) == RAdd(IF i = j THEN g ELSE Q(0), RMul(Q(2), RMul(h, RMul(p[i], p[j])))) IN
  TLCEval([i \in 1..2 |-> [k \in 1..3 |-> RAdd(RMul(dd(i, 1), dp[1][k]), RMul(dd(i, 2), dp[2][k]))]])
CamJac(e) ==
  LET D == TLCEval(DCam(e)) x == TLCEval(El("SE3", e.q, e.t))
      A == TLCEval(ActJacG("SE3", x, e.p)) B == TLCEval(RotBlock("SE3", x))
      comb(M, i, j) == RFix(RAdd(RAdd(RMul(D[i][1], Rat(M.m[1][j], M.d)), RMul(D[i][2], Rat(M.m[2][j], M.d))), RMul(D[i][3], Rat(M.m[3][j], M.d)))) IN
  << [i \in 1..2 |-> [j \in 1..6 |-> comb(A, i, j)]], [i \in 1..2 |-> [j \in 1..3 |-> comb(B, i, j)]] >>
CamBad(e) ==
  F(NearV(e.out, CamErr(e), e.tol), "reprojection_error") \cup
  (LET J == TLCEval(CamJac(e)) IN UNION {F(NearM(e.j[k], J[k], e.tol * 2), "reprojection_jacobian_" \o ToString(k)) : k \in DOMAIN e.j})

(* double integrator: pose difference minus dt v1, then v2 - v1; dt = e.dt[1] / e.dt[2] *)
Ride(e) == [i \in DOMAIN e.v1 |-> Fix(e.dt[1] * e.v1[i], e.dt[2])]
Accel(e) == [i \in DOMAIN e.v1 |-> S * (e.v2[i] - e.v1[i])]
DiBad(e) ==
  LET n == Len(e.v1) head == SubSeq(e.out, 1, n) tail == SubSeq(e.out, n + 1, 2 * n) r == Ride(e) IN
  F(Len(e.out) = 2 * n /\ NearV(tail, Accel(e), e.tol), "velocity_error") \cup
  (IF e.ty = "vec" THEN F(NearV(head, [i \in 1..n |-> S * (e.x2[i] - e.x1[i]) - r[i]], e.tol), "vector_motion_error")
   ELSE LET p == TLCEval(Strip(e.ty, PoseBetween(P(e, 1), P(e, 2))))
            a == TLCEval(Pick(e.ty, LogP(p, 1))) b == TLCEval(Pick(e.ty, LogP(p, -1)))
            tol == e.tol + 3 + Abs(p.t[1]) \div p.d + Abs(p.t[2]) \div p.d + Abs(p.t[3]) \div p.d IN
        F(NearV(head, [i \in 1..n |-> a[i] - r[i]], tol) \/ (p.q[1] = 0 /\ NearV(head, [i \in 1..n |-> b[i] - r[i]], tol)), "motion_error"))

MJudge(e) ==
  CASE e.op = "cost" -> ResidBad(e)
    [] e.op = "vcost" -> VecCostBad(e)
    [] e.op = "di" -> DiBad(e)
    [] e.op = "jac" -> JacBad(e)
    [] e.op = "fast" -> FastBad(e)
    [] e.op = "camera" -> CamBad(e)
    [] OTHER -> Judge(e)
MNext == /\ l <= Len(Trace)
         /\ LET b == MJudge(Trace[l]) IN
              IF b = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, clauses |-> SetToSeq(b)]))
         /\ l' = l + 1
         /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
MSpec == Init /\ [][MNext]_l
=============================================================================
