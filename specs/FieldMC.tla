------------------------------- MODULE FieldMC -------------------------------
(* Small maps, every point of a fine grid, every pushing posture of a small box.     *)
EXTENDS Field, Json
CONSTANTS R, C, Values, D
VARIABLES m, c, r, ph
vars == <<m, c, r, ph>>
Maps == [1..R -> [1..C -> Values]]
Init == m \in Maps /\ c = -1 /\ r = -1 /\ ph = 0
Move == \/ c < (C - 1) * D + 1 /\ c' = c + 1 /\ UNCHANGED <<m, r, ph>>
        \/ c = (C - 1) * D + 1 /\ r < (R - 1) * D + 1 /\ r' = r + 1 /\ c' = -1 /\ UNCHANGED <<m, ph>>
Next == Move
Spec == Init /\ [][Next]_vars
SetSeq(x) == LET RECURSIVE f(_) f(s) == IF s = {} THEN <<>> ELSE LET y == CHOOSE y \in s : \A z \in s : y <= z IN <<y>> \o f(s \ {y}) IN f(x)
Show == [in |-> Inside(m, c, r, D), v |-> IF Inside(m, c, r, D) THEN Value(m, c, r, D) ELSE 0,
         sc |-> SetSeq(SlopesC(m, c, r, D)), sr |-> SetSeq(SlopesR(m, c, r, D))]
Point == PrintT(ToJson([m |-> m, c |-> c, r |-> r, obs |-> Show]))
(* theorems: within a cell the slope is the difference quotient; the map is continuous *)
Linear == Inside(m, c, r, D) =>
  /\ (Inside(m, c + 1, r, D) => \E s \in SlopesC(m, c, r, D) : Value(m, c + 1, r, D) - Value(m, c, r, D) = s)
  /\ (Inside(m, c, r + 1, D) => \E s \in SlopesR(m, c, r, D) : Value(m, c, r + 1, D) - Value(m, c, r, D) = s)
  /\ (c % D = 0 /\ r % D = 0 => Value(m, c, r, D) = D * D * m[r \div D + 1][c \div D + 1])
(* neighbouring cells differ by at most one cell in distance (squares at most 2 d + 1) *)
Lipschitz == (c = -1 /\ r = -1 /\ Values = {0, 1} /\ ~Empty(m) /\ ~Full(m)) =>
  LET T == Transform(m) IN
  \A i \in 1..R : \A j \in 1..(C - 1) : LET x == T[i][j] y == T[i][j + 1] IN
    /\ (x > 0) = (m[i][j] = 0)
    /\ (x > 0 /\ y > 0 => \E d \in 0..20 : d * d <= y /\ (d + 1) * (d + 1) > y /\ x <= (d + 2) * (d + 2))
    /\ (x * y < 0 => Ab(x) = 1 /\ Ab(y) = 1)
Thm == Linear /\ Lipschitz
=============================================================================
