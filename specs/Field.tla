-------------------------------- MODULE Field --------------------------------
(* Residuals of the motion and collision costs over exact integers: bilinear signed
   distance maps, distance transforms, planar pushing, hinges and the Gaussian-process
   prior.                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ab(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a > b THEN a ELSE b

(* A map m (rows of integers) over cells of size K / 4; a point is given in cells as
   (c, r) / D, exactly.  Inside: 0 <= c <= (cols - 1) D, same for rows.             *)
Cols(m) == Len(m[1])
Rows(m) == Len(m)
Inside(m, c, r, D) == c >= 0 /\ c <= (Cols(m) - 1) * D /\ r >= 0 /\ r <= (Rows(m) - 1) * D
OnEdge(m, c, r, D) == Inside(m, c, r, D) /\ (c = 0 \/ r = 0 \/ c = (Cols(m) - 1) * D \/ r = (Rows(m) - 1) * D)
At(m, r, c) == m[(IF r >= Rows(m) THEN Rows(m) - 1 ELSE r) + 1][(IF c >= Cols(m) THEN Cols(m) - 1 ELSE c) + 1]
(* value times D^2 *)
Value(m, c, r, D) ==
  LET lc == c \div D lr == r \div D fc == c % D fr == r % D IN
  (D - fr) * (D - fc) * At(m, lr, lc) + fr * (D - fc) * At(m, lr + 1, lc) + (D - fr) * fc * At(m, lr, lc + 1) + fr * fc * At(m, lr + 1, lc + 1)
(* slopes along the columns within the cells that start at column k, times D; a cell
   outside the map is flat                                                         *)
SlopeC(m, k, r, D) == IF k < 0 \/ k >= Cols(m) - 1 THEN 0
  ELSE LET lr == r \div D fr == r % D IN (D - fr) * (At(m, lr, k + 1) - At(m, lr, k)) + fr * (At(m, lr + 1, k + 1) - At(m, lr + 1, k))
SlopeR(m, k, c, D) == IF k < 0 \/ k >= Rows(m) - 1 THEN 0
  ELSE LET lc == c \div D fc == c % D IN (D - fc) * (At(m, k + 1, lc) - At(m, k, lc)) + fc * (At(m, k + 1, lc + 1) - At(m, k, lc + 1))
Cells(x, D) == IF x % D = 0 THEN {x \div D - 1, x \div D} ELSE {x \div D}
SlopesC(m, c, r, D) == IF Inside(m, c, r, D) THEN {SlopeC(m, k, r, D) : k \in Cells(c, D)} ELSE {0}
SlopesR(m, c, r, D) == IF Inside(m, c, r, D) THEN {SlopeR(m, k, c, D) : k \in Cells(r, D)} ELSE {0}

(* signed squared distance, in cells, from an occupancy map to its other side *)
Dist2(o, r, c) ==
  LET other == {p \in (1..Rows(o)) \X (1..Cols(o)) : o[p[1]][p[2]] # o[r][c]}
      d(p) == (p[1] - r) * (p[1] - r) + (p[2] - c) * (p[2] - c)
      best == CHOOSE x \in {d(p) : p \in other} : \A p \in other : x <= d(p) IN
  IF o[r][c] = 1 THEN -best ELSE best
Empty(o) == \A r \in DOMAIN o : \A c \in DOMAIN o[r] : o[r][c] = 0
Full(o) == \A r \in DOMAIN o : \A c \in DOMAIN o[r] : o[r][c] = 1
(* a map without obstacles is free as far as twice its size: squared, in cells *)
Transform(o) == [r \in DOMAIN o |-> [c \in DOMAIN o[r] |->
   IF Empty(o) THEN 4 * Mx(Rows(o), Cols(o)) * Mx(Rows(o), Cols(o)) ELSE Dist2(o, r, c)]]

(* hinge: distance to the shrunk interval and its slope (either one at a corner) *)
Hinge(x, lo, hi, th) == IF x > hi - th THEN x - (hi - th) ELSE IF x < lo + th THEN lo + th - x ELSE 0
HingeSlopes(x, lo, hi, th) ==
  IF x > hi - th THEN {1} ELSE IF x < lo + th THEN {-1} \cup (IF x = hi - th THEN {1, 0} ELSE {})
  ELSE {0} \cup (IF x = hi - th THEN {1} ELSE {}) \cup (IF x = lo + th THEN {-1} ELSE {})

(* planar rotations by quarter turns *)
Cos(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
Turn(k, v) == <<Cos(k) * v[1] - Sin(k) * v[2], Sin(k) * v[1] + Cos(k) * v[2]>>
V2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
(* quasi-static pushing: numbers <<a, b>> stand for a + b pi / 2; poses [x, y, k] *)
Xy(p) == <<p.x, p.y>>
Wrap(k) == LET j == k % 4 IN IF j = 3 THEN -1 ELSE j
PushParts(e) == [p |-> Turn(-e.o2.k, V2(Xy(e.e2), Xy(e.o2))), v |-> Turn(-e.o2.k, V2(Xy(e.o2), Xy(e.o1))),
                 u |-> Turn(-e.o2.k, V2(Xy(e.e2), Xy(e.e1))), w |-> Wrap(e.o2.k - e.o1.k)]
PushError(e) == LET q == PushParts(e) IN
  << <<q.v[1] - q.u[1], -q.p[2] * q.w>>, <<q.v[2] - q.u[2], q.p[1] * q.w>>,
     <<q.p[1] * q.v[2] - q.p[2] * q.v[1], -e.c2 * q.w>> >>
(* directional derivative of the error: dp, dv, du planar vectors, dw a number *)
PushSlope(e, dp, dv, du, dw) == LET q == PushParts(e) IN
  << <<dv[1] - du[1] - q.p[2] * dw, -dp[2] * q.w>>, <<dv[2] - du[2] + q.p[1] * dw, dp[1] * q.w>>,
     <<dp[1] * q.v[2] + q.p[1] * dv[2] - dp[2] * q.v[1] - q.p[2] * dv[1] - e.c2 * dw, 0>> >>
Z2 == <<0, 0>>
Unit2(i) == IF i = 1 THEN <<1, 0>> ELSE IF i = 2 THEN <<0, 1>> ELSE Z2
NegT(v) == <<v[2], -v[1]>>      \* derivative of R(-a) v
(* columns of the jacobians: each pose moves in its own frame, then turns *)
PushColumn(e, var, i) ==
  LET q == PushParts(e) t == Unit2(i) a == IF i = 3 THEN 1 ELSE 0 IN
  CASE var = 1 -> PushSlope(e, Z2, Turn(e.o1.k - e.o2.k + 2, t), Z2, -a)
    [] var = 2 -> IF i = 3 THEN PushSlope(e, NegT(q.p), NegT(q.v), NegT(q.u), 1) ELSE PushSlope(e, <<-t[1], -t[2]>>, t, Z2, 0)
    [] var = 3 -> PushSlope(e, Z2, Z2, Turn(e.e1.k - e.o2.k + 2, t), 0)
    [] var = 4 -> PushSlope(e, Turn(e.e2.k - e.o2.k, t), Z2, Turn(e.e2.k - e.o2.k, t), 0)
PushJac(e) == [v \in 1..4 |-> [r \in 1..3 |-> [i \in 1..3 |-> PushColumn(e, v, i)[r]]]]

(* Gaussian-process prior: information of (position, velocity) errors over dt = a / b,
   times a^3                                                                       *)
GPInfo(Q, a, b) == LET n == Len(Q) IN
  TLCEval([i \in 1..(2 * n) |-> [j \in 1..(2 * n) |->
     IF i <= n /\ j <= n THEN 12 * b * b * b * Q[i][j]
     ELSE IF i > n /\ j > n THEN 4 * a * a * b * Q[i - n][j - n]
     ELSE -6 * b * b * a * Q[IF i > n THEN i - n ELSE i][IF j > n THEN j - n ELSE j]]])
RECURSIVE DotN(_, _)
DotN(u, v) == IF u = <<>> THEN 0 ELSE Head(u) * Head(v) + DotN(Tail(u), Tail(v))
MatVec(M, v) == [i \in DOMAIN M |-> DotN(M[i], v)]
MatMat(M, N) == [i \in DOMAIN M |-> [j \in DOMAIN N[1] |-> DotN(M[i], [k \in DOMAIN N |-> N[k][j]])]]
=============================================================================
