--------------------------------- MODULE Kin ---------------------------------
(* Kinematic trees.  A robot is a sequence of joints; joint i has a type, the link it
   hangs from (0 is the root link, link k is the child of joint k < i), a rational
   origin and a rational unit axis.  A joint angle is (w, t): a revolute joint turns by
   2 atan(t |a| / w) about its axis a, a prismatic joint moves by t / w.  Everything is
   exact: a pose is an integer 3x4 matrix m over a denominator d.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE Gcd(b, a % Abs(b))
RECURSIVE GcdS(_)
GcdS(s) == IF s = <<>> THEN 0 ELSE Gcd(Head(s), GcdS(Tail(s)))
Vec(F(_)) == TLCEval(<<F(1), F(2), F(3)>>)
Mat(F(_, _), n) == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..n |-> F(i, j)])])
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
AddV(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sc(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Col(M, j) == <<M[1][j], M[2][j], M[3][j]>>
Rot(M) == TLCEval([i \in 1..3 |-> <<M[i][1], M[i][2], M[i][3]>>])
Mul(A, B) == LET F(i, j) == Dot3(A[i], Col(B, j)) IN Mat(F, 3)
MV(A, v) == <<Dot3(A[1], v), Dot3(A[2], v), Dot3(A[3], v)>>
Tp(A) == LET F(i, j) == A[j][i] IN Mat(F, 3)
Join(R, p) == TLCEval([i \in 1..3 |-> <<R[i][1], R[i][2], R[i][3], p[i]>>])
Id3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Zero3 == <<0, 0, 0>>

(* rotations over a denominator: R / d *)
Reduce(R, d) == LET g == GcdS(R[1] \o R[2] \o R[3] \o <<d>>) F(i, j) == R[i][j] \div g IN [R |-> Mat(F, 3), d |-> d \div g]
(* the rotation of the quaternion (w, v) *)
Quat(w, v) == LET n == w * w + Dot3(v, v) S == << <<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>> >>
                  F(i, j) == (IF i = j THEN w * w - Dot3(v, v) ELSE 0) + 2 * v[i] * v[j] + 2 * w * S[i][j] IN
  Reduce(Mat(F, 3), n)
(* roll, pitch, yaw about the fixed axes x, y, z; each an angle <<cos, sin, den>> *)
Rpy(r, p, y) == LET Rx == << <<r[3], 0, 0>>, <<0, r[1], -r[2]>>, <<0, r[2], r[1]>> >>
                    Ry == << <<p[1], 0, p[2]>>, <<0, p[3], 0>>, <<-p[2], 0, p[1]>> >>
                    Rz == << <<y[1], -y[2], 0>>, <<y[2], y[1], 0>>, <<0, 0, y[3]>> >> IN
  Reduce(Mul(Rz, Mul(Ry, Rx)), r[3] * p[3] * y[3])

(* rigid poses m / d *)
IdP == [m |-> Join(Id3, Zero3), d |-> 1]
Comp(a, b) == [m |-> Join(Mul(a.m, b.m), AddV(MV(a.m, Col(b.m, 4)), Sc(b.d, Col(a.m, 4)))), d |-> a.d * b.d]
Origin(j) == LET r == Rpy(j.rpy[1], j.rpy[2], j.rpy[3]) IN [m |-> Join(r.R, Sc(r.d, j.xyz)), d |-> r.d]
Movable(j) == j.type # "fixed"
Turning(j) == j.type \in {"revolute", "continuous"}
(* an axis left out is the x axis *)
Axis(j) == IF j.ax = <<>> THEN [v |-> <<1, 0, 0>>, n |-> 1] ELSE [v |-> <<j.ax[1], j.ax[2], j.ax[3]>>, n |-> j.ax[4]]
Motion(j, q) == LET a == Axis(j) IN
  IF j.type = "fixed" THEN IdP
  ELSE IF Turning(j) THEN LET r == Quat(q.w, Sc(q.t, a.v)) IN [m |-> Join(r.R, Zero3), d |-> r.d]
  ELSE LET F(i, k) == IF i = k THEN q.w * a.n ELSE 0 IN [m |-> Join(Mat(F, 3), Sc(q.t, a.v)), d |-> q.w * a.n]
Rel(j, q) == Comp(Origin(j), Motion(j, q))

(* poses of all links: P[i + 1] is the pose of link i *)
RECURSIVE PosesUpTo(_, _, _)
PosesUpTo(r, q, n) == IF n = 0 THEN <<IdP>>
  ELSE LET P == PosesUpTo(r, q, n - 1) IN Append(P, TLCEval(Comp(P[r[n].parent + 1], Rel(r[n], q[n]))))
Poses(r, q) == PosesUpTo(r, q, Len(r))
(* the path from the root to link i, as joint indices in order *)
RECURSIVE Path(_, _)
Path(r, i) == IF i = 0 THEN <<>> ELSE Append(Path(r, r[i].parent), i)
Above(r, j, i) == \E k \in DOMAIN Path(r, i) : Path(r, i)[k] = j    \* joint j moves link i (or is its joint)

(* screws <<v, w>>; Ad of a pose maps screw numerators over e to numerators over e d^2 *)
Ad(p, s) == LET Rw == MV(p.m, s[2]) IN
  <<AddV(Sc(p.d, MV(p.m, s[1])), Cross(Col(p.m, 4), Rw)), Sc(p.d, Rw)>>
AdInv(p, s) == LET Rt == Tp(Rot(p.m)) IN
  <<MV(Rt, AddV(Sc(p.d, s[1]), Sc(-1, Cross(Col(p.m, 4), s[2])))), Sc(p.d, MV(Rt, s[2]))>>
Unit(j) == LET a == Axis(j) IN IF ~Movable(j) THEN <<Zero3, Zero3>>
  ELSE IF Turning(j) THEN <<Zero3, a.v>> ELSE <<a.v, Zero3>>
(* the spatial screw of joint j, over SDen *)
Screw(r, P, j) == Ad(P[j + 1], Unit(r[j]))
SDen(r, P, j) == P[j + 1].d * P[j + 1].d * Axis(r[j]).n
Bracket(s, t) == <<AddV(Cross(s[2], t[1]), Cross(s[1], t[2])), Cross(s[2], t[2])>>
(* hat(s) applied to a 3x4 matrix over d: columns 1..3 are vectors, column 4 a point *)
HatAt(s, M, d) == LET F(j) == AddV(Cross(s[2], Col(M, j)), IF j = 4 THEN Sc(d, s[1]) ELSE Zero3)
                      c == TLCEval(<<F(1), F(2), F(3), F(4)>>) G(i, j) == c[j][i] IN Mat(G, 4)
(* the second application: the last column of hat(s) T is a vector already *)
HatV(s, M) == LET F(j) == Cross(s[2], Col(M, j)) c == TLCEval(<<F(1), F(2), F(3), F(4)>>) G(i, j) == c[j][i] IN Mat(G, 4)
ZeroM(n) == LET F(i, j) == 0 IN Mat(F, n)

(* dT_l / dq_j, over SDen(j) d_l ; d2 T_l / dq_a dq_b, over SDen(a) SDen(b) d_l *)
DPose(r, P, l, j) == IF Movable(r[j]) /\ Above(r, j, l) THEN HatAt(Screw(r, P, j), P[l + 1].m, P[l + 1].d) ELSE ZeroM(4)
DDPose(r, P, l, a, b) ==
  IF ~(Movable(r[a]) /\ Movable(r[b]) /\ Above(r, a, l) /\ Above(r, b, l)) THEN ZeroM(4)
  ELSE LET hi == IF Above(r, a, b) THEN a ELSE b lo == IF hi = a THEN b ELSE a IN
    HatV(Screw(r, P, hi), HatAt(Screw(r, P, lo), P[l + 1].m, P[l + 1].d))
(* column j of the jacobians of link l: spatial over SDen(j), body over SDen(j) d_l^2 *)
JacS(r, P, l, j) == IF Above(r, j, l) THEN Screw(r, P, j) ELSE <<Zero3, Zero3>>
JacB(r, P, l, j) == AdInv(P[l + 1], JacS(r, P, l, j))
(* derivatives of those columns with respect to q_a, over SDen(a) SDen(j) (d_l^2) *)
DJacS(r, P, l, j, a) == IF Above(r, j, l) /\ Above(r, a, j) THEN Bracket(Screw(r, P, a), Screw(r, P, j)) ELSE <<Zero3, Zero3>>
DJacB(r, P, l, j, a) ==
  IF ~Above(r, j, l) \/ ~Above(r, a, l) \/ Above(r, a, j) THEN <<Zero3, Zero3>>
  ELSE AdInv(P[l + 1], Bracket(Screw(r, P, j), Screw(r, P, a)))
Flat(s) == s[1] \o s[2]

(* the structure a parsed robot shows *)
Dof(r) == Cardinality({i \in DOMAIN r : Movable(r[i])})
=============================================================================
