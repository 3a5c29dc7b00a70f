------------------------------ MODULE LinTrace ------------------------------
(* Judges recorded linearizations of real objectives (Store gives the linear
   system of the recorded values): system, normal matrix, gradient, diagonal
   scaling and products, for dense and sparse linearizations, any ordering, read
   at any time after linearizing.                                                *)
EXTENDS Store, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, live
vars == <<l, c, live>>
Init == l = 1 /\ c = [vars |-> <<>>, cfs |-> <<>>] /\ live = FALSE
F(b, name) == IF b THEN {} ELSE {name}
Has(e, k) == k \in DOMAIN e

Dot(a, b) == Sum([i \in DOMAIN a |-> a[i] * b[i]])
Col(M, j) == [i \in DOMAIN M |-> M[i][j]]
NCols(M) == Len(M[1])
MtM(M) == [i \in 1..NCols(M) |-> [j \in 1..NCols(M) |-> Dot(Col(M, i), Col(M, j))]]
MtV(M, v) == [j \in 1..NCols(M) |-> Dot(Col(M, j), v)]
MV(M, v) == [i \in DOMAIN M |-> Dot(M[i], v)]
Diag(M, v) == [j \in 1..NCols(M) |-> Dot(Col(M, j), Col(M, j)) * v[j]]

Judge(e) ==
  IF e.res # "ok" THEN {"outcome"}
  ELSE LET A == LinA(c, e.reg, e.val, e.ord)
           b == LinB(c, e.reg, e.val)
           V == [k \in DOMAIN A |-> e.v[k]]
       IN (IF Has(e, "A") THEN F(e.A = A, "matrix") \cup F(e.b = b, "rhs") ELSE {}) \cup
          (IF Has(e, "AtA") THEN F(e.AtA = [k \in DOMAIN A |-> MtM(A[k])], "normal_matrix") ELSE {}) \cup
          (IF Has(e, "Atb") THEN F(e.Atb = [k \in DOMAIN A |-> MtV(A[k], b[k])], "gradient") ELSE {}) \cup
          (IF Has(e, "diag") THEN F(e.diag = [k \in DOMAIN A |-> Diag(A[k], V[k])], "diagonal_scaling") ELSE {}) \cup
          (IF Has(e, "Av") THEN F(e.Av = [k \in DOMAIN A |-> MV(A[k], V[k])], "product") ELSE {}) \cup
          F(e.dtype = 1, "precision")

Step(e) ==
  IF e.op = "reset" THEN c' = e.cat /\ live' = TRUE
  ELSE IF ~live THEN UNCHANGED <<c, live>>
  ELSE LET bad == Judge(e) IN
       /\ c' = c
       /\ IF bad = {} THEN live' = TRUE
          ELSE live' = FALSE /\ PrintT(ToJson([line |-> l, clauses |-> SetToSeq(bad)]))
Next == /\ l <= Len(Trace)
        /\ Step(Trace[l])
        /\ l' = l + 1
        /\ IF l = Len(Trace) THEN PrintT(ToJson([done |-> l])) ELSE TRUE
Spec == Init /\ [][Next]_vars
=============================================================================
