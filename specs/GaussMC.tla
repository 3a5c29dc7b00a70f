------------------------------ MODULE GaussMC ------------------------------
(* Two Gaussians over one element and all histories of updates (good and bad), copies and
   changes of coordinates.                                                              *)
EXTENDS Gauss, Json
CONSTANTS Ty, Depth
VARIABLES g, h, v, n          \* Gaussians (h: <<>> until made), the variable, steps taken
vars == <<g, h, v, n>>
Turn2 == << <<0, -1>>, <<1, 0>> >>
Turn3 == << <<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>> >>
Rot == CASE Ty \in {"SO2", "SE2"} -> Turn2 [] Ty \in {"SO3", "SE3"} -> Turn3 [] OTHER -> <<>>
Ts == CASE Ty = "V" -> {<<0, 1>>, <<2, -3>>} [] Ty = "SE2" -> {<<0, 2>>, <<-2, 4>>}
        [] Ty = "SE3" -> {<<0, 2, -4>>, <<2, 0, 2>>} [] OTHER -> {<<>>}
El(t) == [ty |-> Ty, R |-> Rot, t |-> t]
D == Dof(El(CHOOSE t \in Ts : TRUE))
P1 == [i \in 1..D |-> [j \in 1..D |-> IF i = j THEN i + 1 ELSE IF i + j = D + 1 THEN 1 ELSE 0]]
Bad == [P1 EXCEPT ![1][D] = 7]
Short == [i \in 1..(D + 1) |-> [j \in 1..(D + 1) |-> IF i = j THEN 1 ELSE 0]]
Precs == {P1, Id(D)}
St == [g |-> g, h |-> h, v |-> v]
Edge(a) == PrintT(ToJson([s |-> St, a |-> a, t |-> [g |-> g', h |-> h', v |-> v']])) /\ n' = n + 1
First == CHOOSE t \in Ts : TRUE
Init == /\ g = [mean |-> << El(First) >>, prec |-> Id(D)] /\ h = <<>> /\ v = El(First) /\ n = 0
        /\ PrintT(ToJson([init |-> St]))
DoUpdate == \E t \in Ts, p \in Precs \cup {Bad, Short}, o \in {"", "dtype"}, len \in {1, 2} :
  LET m == [i \in 1..len |-> El(t)] IN
  /\ (o # "" => len = 1 /\ p = P1) /\ (len = 2 => p = P1)
  /\ g' = Update(g, m, p, o) /\ UNCHANGED <<h, v>>
  /\ Edge([op |-> "update", mean |-> m, prec |-> p, odd |-> o, exp |-> Refusal(g, m, p, o)])
DoCopy == /\ h' = g /\ UNCHANGED <<g, v>> /\ Edge([op |-> "copy"])
DoSwap == /\ h # <<>> /\ g' = h /\ h' = g /\ UNCHANGED v /\ Edge([op |-> "swap"])
DoMove == \E t \in Ts : t # v.t /\ v' = El(t) /\ UNCHANGED <<g, h>> /\ Edge([op |-> "move", v |-> El(t)])
DoLocal == /\ UNCHANGED <<g, h, v>> /\ Edge([op |-> "local", out |-> LocalG(v, g)])
\* retract what local returned, with the precision tightened by the identity
DoRetract == LET l == TLCEval(LocalG(v, g)) L == TLCEval(Plus(l.prec, Id(D))) IN
  /\ h' = RetractG(v, l.mean, L) /\ UNCHANGED <<g, v>> /\ Edge([op |-> "retract", u |-> l.mean, L |-> L])
Next == n < Depth /\ (DoUpdate \/ DoCopy \/ DoSwap \/ DoMove \/ DoLocal \/ DoRetract)
Spec == Init /\ [][Next]_vars
Good(x) == Sym(x.prec) /\ Len(x.prec) = DofAll(x.mean)
WellFormed == Good(g) /\ (h # <<>> => Good(h))
\* changes of coordinates are inverse to each other and keep the information vector's meaning
Inverse == LET l == TLCEval(LocalG(v, g)) r == TLCEval(RetractG(v, l.mean, l.prec)) IN
  /\ r = g
  /\ LocalG(v, r) = l
  /\ Mul(Jexp(v, l.mean), Jinv(v, l.mean)) = Id(D)
  /\ (l.mean = Zeros(D) => l.prec = g.prec)
=============================================================================
