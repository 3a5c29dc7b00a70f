------------------------------- MODULE Typed -------------------------------
(* Typed group tensors as a small object store.  A state has slots (handles) that
   refer to objects; an object is a plain or a group tensor seeing some rows of a
   storage; storages hold integer matrices (cube-group rotations, integer
   translations, or any matrix for plain tensors).  Step gives the next state and
   the outcome of one operation; operations that raise change nothing.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Rot(m) == TLCEval([i \in 1..3 |-> SubSeq(m[i], 1, 3)])
Tr(m) == [i \in 1..3 |-> m[i][4]]
Mul(A, B) == TLCEval([i \in 1..3 |-> [j \in DOMAIN B[1] |-> A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j]]])
MV(A, v) == TLCEval([i \in 1..3 |-> A[i][1] * v[1] + A[i][2] * v[2] + A[i][3] * v[3]])
T(A) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> A[j][i]]])
Join(R, t) == TLCEval([i \in 1..3 |-> Append(R[i], t[i])])
Id3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
Det(A) == A[1][1] * (A[2][2] * A[3][3] - A[2][3] * A[3][2]) - A[1][2] * (A[2][1] * A[3][3] - A[2][3] * A[3][1])
          + A[1][3] * (A[2][1] * A[3][2] - A[2][2] * A[3][1])
Cols(ty) == IF ty = "SE3" THEN 4 ELSE 3
ShapeOk(ty, m) == Len(m) = 3 /\ \A i \in 1..3 : Len(m[i]) = Cols(ty)
Member(ty, m) == ShapeOk(ty, m) /\ LET R == Rot(m) IN Mul(R, T(R)) = Id3 /\ Det(R) = 1
Prod(ty, X, Y) == IF ty = "SO3" THEN Mul(X, Y)
  ELSE LET R == Rot(X) t == MV(R, Tr(Y)) u == Tr(X) IN Join(Mul(R, Rot(Y)), <<t[1] + u[1], t[2] + u[2], t[3] + u[3]>>)
Inv(ty, X) == IF ty = "SO3" THEN T(X) ELSE LET R == T(Rot(X)) t == MV(R, Tr(X)) IN Join(R, <<-t[1], -t[2], -t[3]>>)

(* steps along the group: the tangent of <M, X exp(tau)> at tau = 0, and X exp(c tau)
   for a tangent that is a translation, or a single-axis rotation (c in units pi / 4) *)
SkewOf(A) == <<A[3][2] - A[2][3], A[1][3] - A[3][1], A[2][1] - A[1][2]>>
LeftProject(ty, X, M) == LET Rt == T(Rot(X)) w == SkewOf(Mul(Rt, Rot(M))) IN
  [w |-> w, v |-> IF ty = "SE3" THEN MV(Rt, Tr(M)) ELSE <<0, 0, 0>>]
Quarter(k) == CASE k = 1 -> << <<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>> >>
                [] k = 2 -> << <<0, 0, 1>>, <<0, 1, 0>>, <<-1, 0, 0>> >>
                [] k = 3 -> << <<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>> >>
RECURSIVE Pow(_, _)
Pow(A, n) == IF n = 0 THEN Id3 ELSE Mul(A, Pow(A, n - 1))
Turns(w, c) == LET k == CHOOSE i \in 1..3 : \A j \in 1..3 : Abs(w[i]) >= Abs(w[j]) IN Pow(Quarter(k), ((w[k] * c) \div 2) % 4)
Lift(ty, R) == IF ty = "SO3" THEN R ELSE Join(R, <<0, 0, 0>>)
Advance(ty, X, M, c) == LET p == TLCEval(LeftProject(ty, X, M)) IN
  IF p.w = <<0, 0, 0>> THEN (IF ty = "SE3" THEN Prod(ty, X, Join(Id3, <<c * p.v[1], c * p.v[2], c * p.v[3]>>)) ELSE X)
  ELSE Prod(ty, X, Lift(ty, Turns(p.w, c)))
(* steps the specification can take exactly *)
Exact(ty, X, M, c) == LET p == LeftProject(ty, X, M) IN
  \/ p.w = <<0, 0, 0>>
  \/ p.v = <<0, 0, 0>> /\ Cardinality({i \in 1..3 : p.w[i] # 0}) = 1 /\ \A i \in 1..3 : (p.w[i] * c) % 2 = 0

(* ------------------------------------------------------------- object store *)
O(s, i) == s.obj[s.h[i]]
Val(s, i) == LET o == O(s, i) IN TLCEval([k \in DOMAIN o.ix |-> s.st[o.st][o.ix[k]]])
Live(s) == {s.h[i] : i \in {j \in DOMAIN s.h : s.h[j] # 0}}
(* slot d refers to a new object; fresh storage unless st # 0 *)
Put(s, d, o, rows, st, ix) ==
  LET s2 == IF st = 0 THEN Append(s.st, rows) ELSE s.st
      o2 == [o EXCEPT !.st = IF st = 0 THEN Len(s.st) + 1 ELSE st, !.ix = IF st = 0 THEN [k \in DOMAIN rows |-> k] ELSE ix] IN
  [h |-> [s.h EXCEPT ![d] = Len(s.obj) + 1], obj |-> Append(s.obj, o2), st |-> s2]
Obj(k, ty, dt, rg, leaf) == [k |-> k, ty |-> ty, st |-> 0, ix |-> <<>>, dt |-> dt, rg |-> rg, leaf |-> leaf]
LieObj(ty, dt, rg) == Obj("lie", ty, dt, rg, ~rg)     \* result of an operation: leaf unless it tracks gradients
Fail(s, r) == [s |-> s, r |-> r]
Ok(s) == [s |-> s, r |-> "ok"]
RowsOk(ty, rows) == \A k \in DOMAIN rows : Member(ty, rows[k])
Bcast(a, b) == Len(a) = Len(b) \/ Len(a) = 1 \/ Len(b) = 1
At(a, k) == IF Len(a) = 1 THEN a[1] ELSE a[k]
Max(a, b) == IF a > b THEN a ELSE b

Convert(s, d, a, dt) ==        \* object a in another precision
  LET o == O(s, a) IN
  IF o.dt = dt THEN Put(s, d, [o EXCEPT !.leaf = ~o.rg], <<>>, o.st, o.ix)
  ELSE Put(s, d, [o EXCEPT !.dt = dt, !.leaf = ~o.rg], Val(s, a), 0, <<>>)
Step(s, e) ==
  CASE e.op = "raw" -> Ok(Put(s, e.d, Obj("raw", "none", e.dt, e.rg, TRUE), e.rows, 0, <<>>))
    [] e.op = "ctor" ->          \* lie.SO3(t), LieTensor(t, ltype): a leaf with its own copy
        IF ~RowsOk(e.ty, Val(s, e.a)) THEN Fail(s, "ValueError")
        ELSE Ok(Put(s, e.d, Obj("lie", e.ty, O(s, e.a).dt, FALSE, TRUE), Val(s, e.a), 0, <<>>))
    [] e.op = "from" ->          \* shares storage, keeps the gradient history
        IF ~RowsOk(e.ty, Val(s, e.a)) THEN Fail(s, "ValueError")
        ELSE Ok(Put(s, e.d, LieObj(e.ty, O(s, e.a).dt, O(s, e.a).rg), <<>>, O(s, e.a).st, O(s, e.a).ix))
    [] e.op = "as" ->
        LET o == O(s, e.a) IN
        IF o.k = "lie" THEN (IF o.dt = e.dt THEN Ok([s EXCEPT !.h[e.d] = s.h[e.a]]) ELSE Ok(Convert(s, e.d, e.a, e.dt)))
        ELSE IF e.ty = "none" \/ ~RowsOk(e.ty, Val(s, e.a)) THEN Fail(s, "ValueError")
        ELSE IF o.dt = e.dt THEN Ok(Put(s, e.d, LieObj(e.ty, o.dt, o.rg), <<>>, o.st, o.ix))
        ELSE Ok(Put(s, e.d, LieObj(e.ty, e.dt, o.rg), Val(s, e.a), 0, <<>>))
    [] e.op = "new" ->           \* a.new_lietensor(b)
        IF ~RowsOk(O(s, e.a).ty, Val(s, e.b)) THEN Fail(s, "ValueError")
        ELSE Ok(Put(s, e.d, Obj("lie", O(s, e.a).ty, O(s, e.b).dt, FALSE, TRUE), Val(s, e.b), 0, <<>>))
    [] e.op = "clone" -> Ok(Put(s, e.d, LieObj(O(s, e.a).ty, O(s, e.a).dt, O(s, e.a).rg), Val(s, e.a), 0, <<>>))
    [] e.op = "slice" -> LET o == O(s, e.a) IN
        Ok(Put(s, e.d, LieObj(o.ty, o.dt, o.rg), <<>>, o.st, SubSeq(o.ix, e.lo, e.hi)))
    [] e.op = "cat" ->
        IF O(s, e.a).ty # O(s, e.b).ty THEN Fail(s, "ValueError")
        ELSE Ok(Put(s, e.d, LieObj(O(s, e.a).ty, O(s, e.a).dt, O(s, e.a).rg \/ O(s, e.b).rg), Val(s, e.a) \o Val(s, e.b), 0, <<>>))
    [] e.op = "to" -> Ok(Convert(s, e.d, e.a, e.dt))
    [] e.op \in {"compose", "mul", "between"} ->
        LET o == O(s, e.a) p == O(s, e.b) x == Val(s, e.a) y == Val(s, e.b) IN
        IF p.k # "lie" THEN Fail(s, "TypeError")
        ELSE IF o.ty # p.ty THEN Fail(s, "ValueError")
        ELSE Ok(Put(s, e.d, LieObj(o.ty, o.dt, o.rg \/ p.rg),
                    TLCEval([k \in 1..Max(Len(x), Len(y)) |->
                       Prod(o.ty, IF e.op = "between" THEN Inv(o.ty, At(x, k)) ELSE At(x, k), At(y, k))]), 0, <<>>))
    [] e.op = "inv" -> LET x == Val(s, e.a) IN
        Ok(Put(s, e.d, LieObj(O(s, e.a).ty, O(s, e.a).dt, O(s, e.a).rg), [k \in DOMAIN x |-> Inv(O(s, e.a).ty, x[k])], 0, <<>>))
    [] e.op = "write" ->         \* values written through a plain view are seen by every tensor sharing them
        LET o == O(s, e.a) IN
        Ok([s EXCEPT !.st[o.st] = [k \in DOMAIN @ |->
              IF \E j \in DOMAIN o.ix : o.ix[j] = k THEN e.rows[CHOOSE j \in DOMAIN o.ix : o.ix[j] = k] ELSE @[k]]])
    [] e.op = "set" ->
        IF O(s, e.b).k # "lie" \/ O(s, e.b).ty # O(s, e.a).ty THEN Fail(s, "RuntimeError")
        ELSE Ok([s EXCEPT !.obj[s.h[e.a]].st = O(s, e.b).st, !.obj[s.h[e.a]].ix = O(s, e.b).ix])
    [] e.op = "step" ->          \* update by the projected gradient
        IF ~e.marked THEN Fail(s, "RuntimeError")
        ELSE LET o == O(s, e.a) x == Val(s, e.a) IN
          Ok([s EXCEPT !.st = Append(@, TLCEval([k \in DOMAIN x |-> Advance(o.ty, x[k], e.M[k], e.c)])),
                       !.obj[s.h[e.a]].st = Len(s.st) + 1, !.obj[s.h[e.a]].ix = [k \in DOMAIN x |-> k]])
    [] e.op = "bad" -> Fail(s, "NotImplementedError")
    [] e.op = "eucl" ->          \* plain result of a tensor operation under the Euclidean view
        LET x == Val(s, e.a) y == Val(s, e.b) IN
        Ok(Put(s, e.d, Obj("raw", "none", O(s, e.a).dt, O(s, e.a).rg \/ O(s, e.b).rg, ~(O(s, e.a).rg \/ O(s, e.b).rg)),
               TLCEval([k \in 1..Max(Len(x), Len(y)) |-> [i \in 1..3 |-> [j \in DOMAIN x[1][1] |->
                    IF e.f = "add" THEN At(x, k)[i][j] + At(y, k)[i][j]
                    ELSE IF e.f = "double" THEN 2 * At(x, k)[i][j] ELSE At(x, k)[i][j]]]]), 0, <<>>))

(* what can be observed: the objects behind the slots and which slots are the same
   object or see the same storage                                                  *)
First(s, P(_)) == CHOOSE i \in DOMAIN s.h : P(i) /\ \A j \in DOMAIN s.h : P(j) => i <= j
Observe(s) == [i \in DOMAIN s.h |->
  IF s.h[i] = 0 THEN [k |-> "none"]
  ELSE LET o == O(s, i) P(j) == s.h[j] = s.h[i] Q(j) == s.h[j] # 0 /\ O(s, j).st = o.st IN
    [k |-> o.k, ty |-> o.ty, dt |-> o.dt, rg |-> o.rg, leaf |-> o.leaf, val |-> Val(s, i),
     same |-> First(s, P), shares |-> First(s, Q)]]
Empty(n) == [h |-> [i \in 1..n |-> 0], obj |-> <<>>, st |-> <<>>]
(* forget unreachable objects and storages, number them by first use *)
RECURSIVE Uniq(_, _)
Uniq(q, acc) == IF q = <<>> THEN acc
  ELSE Uniq(Tail(q), IF Head(q) = 0 \/ \E i \in DOMAIN acc : acc[i] = Head(q) THEN acc ELSE Append(acc, Head(q)))
Index(q, x) == IF x = 0 THEN 0 ELSE CHOOSE i \in DOMAIN q : q[i] = x
Tidy(s) ==
  LET os == TLCEval(Uniq(s.h, <<>>)) ob == TLCEval([i \in DOMAIN os |-> s.obj[os[i]]])
      ss == TLCEval(Uniq([i \in DOMAIN ob |-> ob[i].st], <<>>)) IN
  [h |-> TLCEval([i \in DOMAIN s.h |-> Index(os, s.h[i])]),
   obj |-> TLCEval([i \in DOMAIN ob |-> [ob[i] EXCEPT !.st = Index(ss, @)]]),
   st |-> TLCEval([i \in DOMAIN ss |-> s.st[ss[i]]])]
(* no group tensor holds a matrix outside its group as long as nothing but members is
   written through plain views                                                       *)
Typed(s) == \A i \in DOMAIN s.h : s.h[i] # 0 /\ O(s, i).k = "lie" => RowsOk(O(s, i).ty, Val(s, i))
=============================================================================
