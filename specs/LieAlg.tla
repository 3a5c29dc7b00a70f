------------------------------- MODULE LieAlg -------------------------------
(* Exact Lie groups: rotations from integer quaternions (w, x, y, z), integer
   translations.  An element is [m |-> homogeneous integer matrix, d |-> common
   denominator]: the group element is m / d.  Right-tangent convention: the
   derivative of a path X(s) is  X hat(tau).                                   *)
EXTENDS Integers, Sequences, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Dot(a, b) == IF Len(a) = 3 THEN a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
             ELSE IF Len(a) = 4 THEN a[1] * b[1] + a[2] * b[2] + a[3] * b[3] + a[4] * b[4]
             ELSE Sum([i \in DOMAIN a |-> a[i] * b[i]])
Cross(a, b) == << a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1] >>
MatMul(A, B) == LET C == TLCEval([j \in DOMAIN B[1] |-> [k \in DOMAIN B |-> B[k][j]]]) IN
  LET D == TLCEval(A) IN TLCEval([i \in DOMAIN D |-> [j \in DOMAIN C |-> Dot(D[i], C[j])]])
MatVec(A, v) == TLCEval([i \in DOMAIN A |-> Dot(A[i], v)])
Trans(A) == LET B == TLCEval(A) IN TLCEval([j \in DOMAIN B[1] |-> [i \in DOMAIN B |-> B[i][j]]])
Scale(A, s) == TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> s * A[i][j]]])
AddM(A, B) == TLCEval([i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> A[i][j] + B[i][j]]])
Inner(A, B) == Sum([i \in DOMAIN A |-> Dot(A[i], B[i])])
IdM(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]

Rot3(q) == LET w == q[1] x == q[2] y == q[3] z == q[4] IN
  << << w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y) >>,
     << 2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x) >>,
     << 2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z >> >>
Norm2(q) == Dot(q, q)

Dim(ty) == IF ty \in {"SO2", "SE2"} THEN 2 ELSE 3      \* dimension of the space
Size(ty) == CASE ty = "SO2" -> 2 [] ty = "SE2" -> 3 [] ty = "SO3" -> 3 [] ty = "SE3" -> 4
Rigid(ty) == ty \in {"SE2", "SE3"}
El(ty, q, t) ==
  LET R == Rot3(q) n == Dim(ty) N == Norm2(q) IN
  [d |-> N,
   m |-> TLCEval([i \in 1..Size(ty) |-> [j \in 1..Size(ty) |->
            IF i <= n /\ j <= n THEN R[i][j]
            ELSE IF i <= n THEN N * t[i]
            ELSE IF j = n + 1 THEN N ELSE 0]])]
Mul(X, Y) == [m |-> MatMul(X.m, Y.m), d |-> X.d * Y.d]
(* inverse of an element with integer translation *)
Inv(ty, X) ==
  LET n == Dim(ty) R == TLCEval([i \in 1..n |-> [j \in 1..n |-> X.m[j][i]]]) IN
  IF ~Rigid(ty) THEN [m |-> R, d |-> X.d]
  ELSE LET t == [i \in 1..n |-> X.m[i][n + 1] \div X.d]
           rt == MatVec(R, t) IN
       [d |-> X.d,
        m |-> TLCEval([i \in 1..n + 1 |-> [j \in 1..n + 1 |->
                 IF i <= n /\ j <= n THEN R[i][j] ELSE IF i <= n THEN -rt[i]
                 ELSE IF j = n + 1 THEN X.d ELSE 0]])]
One(ty) == [m |-> IdM(Size(ty)), d |-> 1]
Same(X, Y) == Scale(X.m, Y.d) = Scale(Y.m, X.d)

E(n, i, j, s) == [a \in 1..n |-> [b \in 1..n |-> IF <<a, b>> = <<i, j>> THEN s ELSE 0]]
Skew(n, i, j) == AddM(E(n, j, i, 1), E(n, i, j, -1))   \* rotation from axis i to axis j
(* the library's order: translations first, then rotations *)
Bases == TLCEval([
  SO2 |-> <<Skew(2, 1, 2)>>,
  SE2 |-> <<E(3, 1, 3, 1), E(3, 2, 3, 1), Skew(3, 1, 2)>>,
  SO3 |-> <<Skew(3, 2, 3), Skew(3, 3, 1), Skew(3, 1, 2)>>,
  SE3 |-> <<E(4, 1, 4, 1), E(4, 2, 4, 1), E(4, 3, 4, 1), Skew(4, 2, 3), Skew(4, 3, 1), Skew(4, 1, 2)>>])
Basis(ty) == Bases[ty]
Dof(ty) == CASE ty = "SO2" -> 1 [] ty = "SE2" -> 3 [] ty = "SO3" -> 3 [] ty = "SE3" -> 6
Hat(ty, v) ==
  CASE ty = "SO2" -> << <<0, -v[1]>>, <<v[1], 0>> >>
    [] ty = "SE2" -> << <<0, -v[3], v[1]>>, <<v[3], 0, v[2]>>, <<0, 0, 0>> >>
    [] ty = "SO3" -> << <<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>> >>
    [] ty = "SE3" -> << <<0, -v[6], v[5], v[1]>>, <<v[6], 0, -v[4], v[2]>>, <<-v[5], v[4], 0, v[3]>>, <<0, 0, 0, 0>> >>
Vee(ty, M) ==
  CASE ty = "SO2" -> <<M[2][1]>>
    [] ty = "SE2" -> <<M[1][3], M[2][3], M[2][1]>>
    [] ty = "SO3" -> <<M[3][2], M[1][3], M[2][1]>>
    [] ty = "SE3" -> <<M[1][4], M[2][4], M[3][4], M[3][2], M[1][3], M[2][1]>>
(* matrix (with denominator) of  tau -> vee(X hat(tau) Y) , columns = basis directions *)
Conj(ty, X, Y) == LET B == TLCEval(Basis(ty))
                      cols == TLCEval([k \in DOMAIN B |-> Vee(ty, MatMul(MatMul(X.m, B[k]), Y.m))]) IN
                  [m |-> Trans(cols), d |-> X.d * Y.d]
Ad(ty, X) == Conj(ty, X, Inv(ty, X))
Neg(J) == [m |-> Scale(J.m, -1), d |-> J.d]
(* X, Y with integer translations *)
Between(ty, X, Y) == Mul(Inv(ty, X), Y)
InvProd(ty, X, Y) == Mul(Inv(ty, Y), Inv(ty, X))       \* (X Y)^-1

Pt(p) == Append(p, 1)
Act(ty, X, p) == IF Rigid(ty) THEN [v |-> SubSeq(MatVec(X.m, Pt(p)), 1, Dim(ty)), d |-> X.d]
                 ELSE [v |-> MatVec(X.m, p), d |-> X.d]
(* derivative of X p along the tangent directions: X hat(e_k) p *)
ActJacG(ty, X, p) ==
  LET B == Basis(ty) IN
  [m |-> Trans([k \in DOMAIN B |-> Act(ty, [m |-> MatMul(X.m, B[k]), d |-> X.d], p).v]), d |-> X.d]
(* of X^-1 p: -hat(e_k) X^-1 p *)
UnactJacG(ty, X, p) ==
  LET B == Basis(ty) Xi == Inv(ty, X) IN
  [m |-> Trans([k \in DOMAIN B |-> Act(ty, [m |-> MatMul(Scale(B[k], -1), Xi.m), d |-> X.d], p).v]), d |-> X.d]
RotBlock(ty, X) == [m |-> [i \in 1..Dim(ty) |-> [j \in 1..Dim(ty) |-> X.m[i][j]]], d |-> X.d]

(* --------------------------------------------------- angles (fixed point 1e5)
   Kappa(w, n2) = theta / |v| for the quaternion (w, v), |v|^2 = n2, w >= 0:
   the rotation vector is kappa v; Full(n2) = 2 pi / |v|                       *)
KappaTable == <<
  <<-1, 314159, 222144, 181380, 157080, 140496, 128255, 118741, 111072, 104720, 99346, 94723, 90690, 87132, 83963>>,
  <<200000, 157080, 135102, 120920, 110715, 102883, 96608, 91424, 87042, 83270, 79975, 77063, 74464, 72125, 70003>>,
  <<100000, 92730, 87042, 82414, 78540, 75227, 72348, 69811, 67551, 65520, 63679, 62000, 60460, 59040, 57724>>,
  <<66667, 64350, 62298, 60460, 58800, 57290, 55907, 54634, 53455, 52360, 51338, 50381, 49483, 48637, 47838>> >>
FullTable == <<628319, 444288, 362760, 314159, 280993, 256510, 237482, 222144, 209440, 198692, 189445, 181380, 174264, 167925>>
Kappa(w, n2) == KappaTable[w + 1][n2 + 1]
Pos(q) == IF q[1] < 0 THEN [i \in 1..4 |-> -q[i]] ELSE q
Vec(q) == << q[2], q[3], q[4] >>
Inv5(k) == LET a == Abs(k) r == (1000000000 \div a) * 10 + ((1000000000 % a) * 10) \div a IN
           IF k < 0 THEN -r ELSE r                     \* 1e10 / k

Big(ty, u) == IF Len(u) = 3 THEN u ELSE Append(u, 0)
(* log of (q, t) in three dimensions, rotation sign s (half turns have two); scale 1e4 *)
Log3(q, t, s) ==
  LET p == Pos(q) v == Vec(p) n2 == Dot(v, v) w == p[1] k == s * Kappa(w, n2)
      om == [i \in 1..3 |-> (k * v[i]) \div 10]
      al == IF n2 = 0 THEN 100000 ELSE (Abs(k) * w) \div 2
      vt == Dot(v, t) c == Cross(v, t)
      rho == [i \in 1..3 |-> (al * t[i] + (IF n2 = 0 THEN 0 ELSE ((100000 - al) * vt * v[i]) \div n2)
                               - (k * c[i]) \div 2) \div 10] IN
  rho \o om
(* exp of (rho, (kappa + turns * full) v); scale 1e4: translation part *)
ExpT3(q, rho, turns) ==
  LET p == Pos(q) v == Vec(p) n2 == Dot(v, v) w == p[1] N == Norm2(p)
      k == Kappa(w, n2) + (IF n2 = 0 THEN 0 ELSE turns * FullTable[n2])
      L == Inv5(k)
      A == (2 * w * L) \div N
      c == Cross(v, rho) vr == Dot(v, rho) IN
  IF n2 = 0 THEN [i \in 1..3 |-> 10000 * rho[i]]
  ELSE [i \in 1..3 |-> (A * rho[i] + (2 * L * c[i]) \div N + ((100000 - A) * vr * v[i]) \div n2) \div 10]
(* fixed point with scale 1e4 *)
S == 10000
FixP(n, d) == LET r == n % d IN
  (n \div d) * S + (IF d < 200000 THEN (r * S + d \div 2) \div d
                   ELSE ((r * 100) \div d) * 100 + (((r * 100) % d) * 100 + d \div 2) \div d)
Fix(n, d) == IF n < 0 THEN -FixP(-n, d) ELSE FixP(n, d)
Pick(ty, z) == CASE ty = "SO2" -> <<z[6]>> [] ty = "SE2" -> <<z[1], z[2], z[6]>>
                 [] ty = "SO3" -> <<z[4], z[5], z[6]>> [] ty = "SE3" -> z
T3(ty, t) == IF ~Rigid(ty) THEN <<0, 0, 0>> ELSE IF Len(t) = 2 THEN Append(t, 0) ELSE t
HalfTurn(q) == q[1] = 0
=============================================================================
