------------------------------ MODULE PoseAlg ------------------------------
(* Poses as reduced integer quaternions with rational translations t / d (planar
   groups are embedded in the x-y plane): products, inverses and logarithms.      *)
EXTENDS LieAlg

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN Abs(a) ELSE GCD(b, a % b)
RECURSIVE GcdSeq(_, _)
GcdSeq(s, g) == IF s = <<>> THEN g ELSE GcdSeq(Tail(s), GCD(Abs(Head(s)), g))
SignOf(q) == LET f == IF q[1] # 0 THEN q[1] ELSE IF q[2] # 0 THEN q[2] ELSE IF q[3] # 0 THEN q[3] ELSE q[4] IN IF f < 0 THEN -1 ELSE 1
Exact(a, g) == IF g < 0 THEN (-a) \div (-g) ELSE a \div g
Canon(q) == LET g == TLCEval(SignOf(q) * GcdSeq(q, 0)) IN <<Exact(q[1], g), Exact(q[2], g), Exact(q[3], g), Exact(q[4], g)>>
QMul(a, b) == <<
  a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4],
  a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3],
  a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2],
  a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1] >>
Rotate(q, t) == LET R == TLCEval(Rot3(q)) IN TLCEval(<<Dot(R[1], t), Dot(R[2], t), Dot(R[3], t)>>)
Pose(q, t, d) == LET u == TLCEval(t) g == TLCEval(GcdSeq(u, d)) IN
  [q |-> Canon(TLCEval(q)), t |-> <<u[1] \div g, u[2] \div g, u[3] \div g>>, d |-> d \div g]
PoseOf(ty, e) == Pose(e.q, T3(ty, e.t), 1)
PoseMul(u, v) == LET a == TLCEval(u) b == TLCEval(v) IN
 
  LET N == Norm2(a.q) rt == Rotate(a.q, b.t) k == N * b.d IN
  Pose(QMul(a.q, b.q), <<rt[1] * a.d + a.t[1] * k, rt[2] * a.d + a.t[2] * k, rt[3] * a.d + a.t[3] * k>>, k * a.d)
PoseInv(u) == LET a == TLCEval(u) IN
 
  LET c == << a.q[1], -a.q[2], -a.q[3], -a.q[4] >> rt == Rotate(c, a.t) IN
  Pose(c, <<-rt[1], -rt[2], -rt[3]>>, Norm2(a.q) * a.d)
PoseBetween(a, b) == PoseMul(PoseInv(a), b)
PoseOne == [q |-> <<1, 0, 0, 0>>, t |-> <<0, 0, 0>>, d |-> 1]
(* homogeneous matrix of a pose *)
ElOf(ty, p) ==
  LET R == Rot3(p.q) n == Dim(ty) N == Norm2(p.q) IN
  [d |-> N * p.d,
   m |-> TLCEval([i \in 1..Size(ty) |-> [j \in 1..Size(ty) |->
            IF i <= n /\ j <= n THEN R[i][j] * p.d
            ELSE IF i <= n THEN N * p.t[i]
            ELSE IF j = n + 1 THEN N * p.d ELSE 0]])]

(* a (scale 1e5) times x (scale 1e4), scale 1e4 *)
Mul5(a, x) == LET y == Abs(x) r == ((y \div S) * a) \div 10 + ((y % S) * (a \div 10)) \div S IN IF x < 0 THEN -r ELSE r
(* logarithm (scale 1e4) of a pose, rotation sign s *)
LogP(p, s) ==
  LET v == Vec(Pos(p.q)) n2 == Dot(v, v) w == Abs(p.q[1]) k == s * Kappa(w, n2)
      t == TLCEval([i \in 1..3 |-> Fix(p.t[i], p.d)])
      om == [i \in 1..3 |-> (k * v[i]) \div 10]
      al == IF n2 = 0 THEN 100000 ELSE (Abs(k) * w) \div 2
      vt == Dot(v, t) c == Cross(v, t)
      rho == [i \in 1..3 |-> Mul5(al, t[i]) + (IF n2 = 0 THEN 0 ELSE Mul5(100000 - al, (vt * v[i]) \div n2))
                               - Mul5(k, c[i]) \div 2] IN
  rho \o om

Rotation(ty, p) == [p EXCEPT !.t = <<0, 0, 0>>, !.d = 1]
Strip(ty, p) == IF Rigid(ty) THEN p ELSE Rotation(ty, p)
(* residual elements of the measurement costs *)
LocalE(target, var) == PoseBetween(target, var)
BetweenE(v0, v1, m) == PoseMul(PoseInv(m), PoseBetween(v0, v1))
FrameE(f1, f2, p1, p2, m) == BetweenE(PoseBetween(f1, p1), PoseBetween(f2, p2), m)
============================================================================
