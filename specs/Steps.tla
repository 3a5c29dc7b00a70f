------------------------------- MODULE Steps -------------------------------
(* Steps and acceptance rules of Gauss-Newton, Levenberg-Marquardt and Dogleg for
   one batch element, in fixed point (unit 1/S).

   A, e : integer jacobian and error of the element's current cell (1 or 2 columns)
   q    : damping or trust region radius, a fraction; <<0, 0>> = not tracked        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ab(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a < b THEN b ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Red(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == Gcd(Ab(n), d) IN <<n \div g, d \div g>>
(* a < b for non-negative fractions, without large products *)
RECURSIVE LessQ(_, _)
LessQ(a, b) == LET i == a[1] \div a[2] j == b[1] \div b[2] u == a[1] % a[2] v == b[1] % b[2] IN
               IF i # j THEN i < j
               ELSE IF v = 0 THEN FALSE ELSE IF u = 0 THEN TRUE ELSE LessQ(<<b[2], v>>, <<a[2], u>>)
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
Dot(a, b) == SumS([i \in DOMAIN a |-> a[i] * b[i]])
ColM(M, j) == [i \in DOMAIN M |-> M[i][j]]
Nc(A) == Len(A[1])
Hess(A) == [i \in 1..Nc(A) |-> [j \in 1..Nc(A) |-> Dot(ColM(A, i), ColM(A, j))]]
Grad(A, e) == [j \in 1..Nc(A) |-> -Dot(ColM(A, j), e)]      \* A'b with b = -e
Det(M) == IF Len(M) = 1 THEN M[1][1] ELSE M[1][1] * M[2][2] - M[1][2] * M[2][1]
Cram(M, v) == IF Len(M) = 1 THEN << v[1] >>
              ELSE << v[1] * M[2][2] - M[1][2] * v[2], M[1][1] * v[2] - v[1] * M[2][1] >>
Singular(A) == \E j \in 1..Nc(A) : \A i \in DOMAIN A : A[i][j] = 0

(* x * s / d rounded down; only called with d > 0 *)
Fx(x, s, d) == IF Ab(x) <= 2147000000 \div s THEN (x * s) \div d
               ELSE (x \div d) * s + ((x % d) * s) \div d
FxOK(x, s, d) == Ab(x) <= 2147000000 \div s \/ d <= 2147000000 \div s

(* solution of (H + damping) y = g in fixed point, or <<>> when out of range *)
Solve(M, g, S) ==
  LET D == TLCEval(Det(M)) X == TLCEval(Cram(M, g)) IN
  IF D <= 0 \/ (\E i \in DOMAIN X : ~FxOK(X[i], S, D)) THEN <<>>
  ELSE LET y == TLCEval([i \in DOMAIN X |-> Fx(X[i], S, D)])
       IN IF \E i \in DOMAIN y : Ab(y[i]) > 30 * S THEN <<>> ELSE y

GnStep(A, e, S) == Solve(Hess(A), Grad(A, e), S)

(* damping q = n/d, additive (ell = 0) or scaled by the diagonal (ell = 1) *)
QOK(q, dim) == q[2] # 0 /\ q[1] <= (IF dim = 1 THEN 12000000 ELSE 1200) /\ q[2] <= (IF dim = 1 THEN 6000 ELSE 60)
LmStep(A, e, q, ell, S) ==
  LET H == TLCEval(Hess(A)) n == q[1] d == q[2] g == TLCEval(Grad(A, e)) IN
  IF ~QOK(q, Len(g)) THEN <<>>
  ELSE Solve([i \in DOMAIN H |-> [j \in DOMAIN H |-> d * H[i][j] +
               (IF i = j THEN n * (IF ell = 1 THEN H[i][i] ELSE 1) ELSE 0)]],
             [i \in DOMAIN g |-> d * g[i]], S)

(* twice the reduction predicted by LM for the step y, times S *)
LmPred(A, e, q, ell, y, S) ==
  LET H == Hess(A) g == Grad(A, e) IN
  SumS([i \in DOMAIN y |-> y[i] * g[i] +
     (((y[i] * y[i]) \div S) * (IF ell = 1 THEN H[i][i] ELSE 1) * q[1]) \div q[2]])
(* twice the reduction predicted by the quadratic model, times S *)
TrPred(A, e, y, S) ==
  LET g == TLCEval(Grad(A, e))
      Ay == TLCEval([r \in DOMAIN A |-> Dot(A[r], y)])
  IN IF \E r \in DOMAIN Ay : Ab(Ay[r]) > 40 * S THEN -1
     ELSE SumS([i \in DOMAIN y |-> 2 * y[i] * g[i]]) - SumS([r \in DOMAIN Ay |-> (Ay[r] * Ay[r]) \div S])

(* Is  num/den < t (a fraction)?  num, den scaled integers, den > 0 with an
   absolute uncertainty u: "yes", "no" or "?"                                     *)
Cmp(num, den, u, t) ==
  LET l == num * t[2] r == t[1] * den w == Ab(t[1]) * u + Ab(r) \div 200 IN
  IF l < r - w THEN "yes" ELSE IF l > r + w THEN "no" ELSE "?"

RECURSIVE Isq(_, _, _)
Isq(v, lo, hi) == IF hi - lo <= 1 THEN lo
                  ELSE LET m == (lo + hi) \div 2 IN
                       IF m * m <= v THEN Isq(v, m, hi) ELSE Isq(v, lo, m)
Norm(y) == Isq(Dot(y, y), 0, 46340)

RECURSIVE Tau(_, _, _, _, _)
Tau(c, df, r2, lo, hi) ==        \* largest t/2^15 with |c + t df| <= r
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2
           p == TLCEval([i \in DOMAIN c |-> c[i] + (df[i] * m) \div 32768])
       IN IF Dot(p, p) <= r2 THEN Tau(c, df, r2, m, hi) ELSE Tau(c, df, r2, lo, m)

(* the dogleg step for radius q *)
DlStep(A, e, q, S) ==
  LET g == TLCEval(Grad(A, e))
      gn == TLCEval(GnStep(A, e, S))
      Ag == TLCEval([r \in DOMAIN A |-> Dot(A[r], g)])
      gg == Dot(g, g)  aa == Dot(Ag, Ag)
      r == (q[1] * S) \div q[2]
      c == TLCEval([i \in DOMAIN g |-> Fx(g[i] * gg, S, aa)])
  IN IF q[2] = 0 \/ gn = <<>> \/ q[1] > 30 * q[2] THEN <<>>
     ELSE IF gg = 0 THEN [i \in DOMAIN g |-> 0]
     ELSE IF \E i \in DOMAIN g : Ab(g[i]) > 1000 \/ gg > 10000 \/ ~FxOK(g[i] * gg, S, aa) THEN <<>>
     ELSE IF Dot(gn, gn) < r * r THEN gn
     ELSE IF Dot(c, c) >= r * r THEN [i \in DOMAIN c |-> (c[i] * r) \div Mx(1, Norm(c))]
     ELSE LET df == TLCEval([i \in DOMAIN c |-> gn[i] - c[i]])
              t == TLCEval(Tau(c, df, r * r, 0, 32769))
          IN [i \in DOMAIN c |-> c[i] + (df[i] * t) \div 32768]

ClampQ(q, lo, hi) == IF LessQ(q, lo) THEN lo ELSE IF LessQ(hi, q) THEN hi ELSE q
=============================================================================
