------------------------------ MODULE LinSolve ------------------------------
(* Judges recorded solves of (damped) normal equations, exactly.

   One event is one batch element of one solve:
     A, b     integer system;  a2, e2 twice the damping and the ellipsoidal eps
     ell      diagonal-scaled (1) or additive (0) damping
     x        the returned solution, as reduced fractions
     g, gA, gb   gradient of g.x with respect to the entries of A and b
   M2 x = 2 A'b  with  M2 = 2 (A'A + damping)  and Cramer's rule.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Has(e, k) == k \in DOMAIN e
F(b, name) == IF b THEN {} ELSE {name}

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Red(n, d) == IF n = 0 THEN <<0, 1>>
             ELSE LET s == IF d < 0 THEN -1 ELSE 1 g == Gcd(Abs(n), Abs(d))
                  IN <<(s * n) \div g, (s * d) \div g>>
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Dot(a, b) == Sum([i \in DOMAIN a |-> a[i] * b[i]])
Col(M, j) == [i \in DOMAIN M |-> M[i][j]]
N(e) == Len(e.A[1])
AtA(e) == [i \in 1..N(e) |-> [j \in 1..N(e) |-> Dot(Col(e.A, i), Col(e.A, j))]]
Atv(A, v) == [j \in 1..Len(A[1]) |-> Dot(Col(A, j), v)]

Minor(M, i, j) == LET n == Len(M) IN
  [r \in 1..n - 1 |-> [c \in 1..n - 1 |->
     M[IF r < i THEN r ELSE r + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE Det(_)
Det(M) == IF Len(M) = 1 THEN M[1][1]
          ELSE Sum([j \in DOMAIN M |->
                 IF M[1][j] = 0 THEN 0
                 ELSE (IF j % 2 = 1 THEN 1 ELSE -1) * M[1][j] * Det(Minor(M, 1, j))])
ReplCol(M, j, v) == [i \in DOMAIN M |-> [c \in DOMAIN M |-> IF c = j THEN v[i] ELSE M[i][c]]]
Cramer(M, v) == [j \in DOMAIN M |-> Det(ReplCol(M, j, v))]

M2(e) == LET P == AtA(e) IN
  [i \in 1..N(e) |-> [j \in 1..N(e) |->
     2 * P[i][j] + (IF i # j THEN 0 ELSE IF e.ell = 1 THEN e.a2 * P[i][i] + e.e2 ELSE e.a2)]]

Singular(e) == \E j \in 1..N(e) : \A i \in DOMAIN e.A : e.A[i][j] = 0
Fix(n, d, s) == (n * s) \div d
Near(obs, n, d) == Abs(obs - Fix(IF d < 0 THEN -n ELSE n, Abs(d), 1000)) <= 2

Solved(e) ==
  LET M == M2(e) D == Det(M) X == Cramer(M, [i \in 1..N(e) |-> 2 * Atv(e.A, e.b)[i]]) IN
  (IF Has(e, "x") THEN F(e.x = [j \in 1..N(e) |-> Red(X[j], D)], "solution") ELSE {}) \cup
  (IF Has(e, "xf") THEN F(\A j \in 1..N(e) : Near(e.xf[j], X[j], D), "solution") ELSE {}) \cup
  (IF Has(e, "gb") THEN
     LET G == Cramer(M, e.g)      \* H = 2 G / D
         AG == [r \in DOMAIN e.A |-> Dot(e.A[r], G)]
         AX == [r \in DOMAIN e.A |-> Dot(e.A[r], X)]
     IN F(e.gb = [r \in DOMAIN e.A |-> Red(2 * AG[r], D)], "gradient_b") \cup
        F(e.gA = [r \in DOMAIN e.A |-> [j \in 1..N(e) |->
            IF Has(e, "mask") /\ e.mask[r][j] = 0 THEN <<0, 1>>   \* not a parameter
            ELSE IF e.det = 1 THEN Red(2 * e.b[r] * G[j], D)
            ELSE Red(2 * G[j] * (e.b[r] * D - AX[r]) - 2 * AG[r] * X[j]
                     - (IF e.ell = 1 THEN e.a2 * e.A[r][j] * 2 * G[j] * X[j] ELSE 0), D * D)]],
          "gradient_A")
   ELSE {}) \cup F(e.dtype = 1, "precision")

(* e.bad = 1: some element of the batch is singular; e.chk = 1: the solver gives
   singular elements zero solutions instead of reporting them                    *)
Judge(e) ==
  IF e.bad = 1 /\ e.chk = 0 THEN F(e.res = "reported", "singular_reported")
  ELSE IF e.res # "ok" THEN {"outcome"}
  ELSE IF Singular(e) THEN
         F(\A j \in DOMAIN e.x : e.x[j] = <<0, 1>>, "singular_zero")
  ELSE Solved(e)

Init == l = 1
Step(e) == LET bad == Judge(e) IN
           IF bad = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, clauses |-> SetToSeq(bad)]))
Next == /\ l <= Len(Trace)
        /\ Step(Trace[l])
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_l
=============================================================================
