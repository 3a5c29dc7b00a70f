------------------------------- MODULE AD -------------------------------
(* Error functions as integer polynomials in the stored entries of their variables;
   exact values, derivatives under the variables' own updates and mixed second
   derivatives.  A variable is [kind, v]: v is the stored row (vectors: entries;
   SO2: cos, sin; SE2: x, y, cos, sin; SO3, SE3: rows of the matrix).             *)
EXTENDS LieAlg

Group(k) == k # "V"
Rows(v, n, c) == [i \in 1..n |-> [j \in 1..c |-> v[(i - 1) * c + j]]]
TopOf(kind, v) ==
  CASE kind = "SO2" -> << <<v[1], -v[2]>>, <<v[2], v[1]>> >>
    [] kind = "SE2" -> << <<v[3], -v[4], v[1]>>, <<v[4], v[3], v[2]>> >>
    [] kind = "SO3" -> Rows(v, 3, 3)
    [] kind = "SE3" -> Rows(v, 3, 4)
Store(kind, M) ==
  CASE kind = "SO2" -> <<M[1][1], M[2][1]>>
    [] kind = "SE2" -> <<M[1][3], M[2][3], M[1][1], M[2][1]>>
    [] kind = "SO3" -> M[1] \o M[2] \o M[3]
    [] kind = "SE3" -> M[1] \o M[2] \o M[3]
DofOf(x) == IF Group(x.kind) THEN Dof(x.kind) ELSE Len(x.v)
(* change of the stored entries along update direction k *)
Dir(x, k) == TLCEval(IF Group(x.kind) THEN Store(x.kind, MatMul(TopOf(x.kind, x.v), Basis(x.kind)[k]))
                     ELSE [i \in DOMAIN x.v |-> IF i = k THEN 1 ELSE 0])
Dirs(x) == TLCEval([k \in 1..DofOf(x) |-> Dir(x, k)])

(* monomial m = [c, f]: coefficient and factors <<variable, entry>> *)
RECURSIVE ProdX(_, _, _)
ProdX(x, f, skip) ==  \* product of the factors at positions not in skip
  IF f = <<>> THEN 1
  ELSE LET n == Len(f) IN
       (IF n \in skip THEN 1 ELSE x[f[n][1]].v[f[n][2]]) * ProdX(x, SubSeq(f, 1, n - 1), skip)
RECURSIVE SumOver(_, _, _)
SumOver(Op(_), s, n) == IF n = 0 THEN 0 ELSE Op(s[n]) + SumOver(Op, s, n - 1)
Val(x, p) == SumOver(LAMBDA m : m.c * ProdX(x, m.f, {}), p, Len(p))
DVal(x, p, i, d) ==
  SumOver(LAMBDA m : m.c * SumOver(LAMBDA q : IF m.f[q][1] = i THEN d[m.f[q][2]] * ProdX(x, m.f, {q}) ELSE 0,
                                   [z \in DOMAIN m.f |-> z], Len(m.f)), p, Len(p))
(* derivative along d of variable i and with respect to entry e of variable j # i *)
DDVal(x, p, i, d, j, e) ==
  SumOver(LAMBDA m : m.c * SumOver(LAMBDA q : IF m.f[q][1] # i THEN 0
              ELSE d[m.f[q][2]] * SumOver(LAMBDA r : IF m.f[r] = <<j, e>> THEN ProdX(x, m.f, {q, r}) ELSE 0,
                                          [z \in DOMAIN m.f |-> z], Len(m.f)),
                                   [z \in DOMAIN m.f |-> z], Len(m.f)), p, Len(p))
Error(x, fn) == [r \in DOMAIN fn |-> Val(x, fn[r])]
Jac(x, fn, i) == LET D == Dirs(x[i]) IN [r \in DOMAIN fn |-> [k \in DOMAIN D |-> DVal(x, fn[r], i, D[k])]]
(* gradient, with respect to the entries of variable j, of sum W[i] . Jac(i) *)
JacGrad(x, fn, opt, W, j) ==
  [e \in DOMAIN x[j].v |->
     SumOver(LAMBDA o : LET i == opt[o] D == Dirs(x[i]) IN
               SumOver(LAMBDA r : SumOver(LAMBDA k : W[o][r][k] * DDVal(x, fn[r], i, D[k], j, e), [z \in DOMAIN D |-> z], Len(D)),
                       [z \in DOMAIN fn |-> z], Len(fn)),
             [z \in DOMAIN opt |-> z], Len(opt))]
=========================================================================
