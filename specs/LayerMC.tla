------------------------------ MODULE LayerMC ------------------------------
(* The differentiable layer as a state machine.

   The objective is  1/2 (w (2 x - y))^2 + 1/2 (x - p)^2  with the auxiliary
   variables y, w, p (two values each).  A forward call in any mode overwrites the
   auxiliary values it was given, keeps the others, and returns the minimiser; its
   output can be differentiated later, with the values of ITS call, whatever
   happened in between.  Structural edits invalidate every older layer and
   optimizer for good.

   state: val (current auxiliary values), cur (structure version), lay (version at
   which the layer in use was built), dt (precision), pend (undifferentiated output) *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC

Modes == {"unroll", "implicit", "truncated", "dlm", "direct"}
Names == {"y", "w", "p"}
Alt == [y |-> <<1, 3>>, w |-> <<1, 2>>, p |-> <<0, 2>>]
Flip(n, v) == IF v = Alt[n][1] THEN Alt[n][2] ELSE Alt[n][1]
Touch(val, T) == [n \in Names |-> IF n \in T THEN Flip(n, val[n]) ELSE val[n]]

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(x) == IF x < 0 THEN -x ELSE x
Red(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == Gcd(Abs(n), d) IN <<n \div g, d \div g>>

Den(v) == 4 * v.w * v.w + 1
Sol(v) == Red(2 * v.w * v.w * v.y + v.p, Den(v))
(* derivative of the minimiser, by the implicit function theorem *)
Grad(v) == LET D == Den(v) N == 2 * v.w * v.w * v.y + v.p IN
  [y |-> Red(2 * v.w * v.w, D), p |-> Red(1, D),
   w |-> Red(-4 * v.w * (2 * N - v.y * D), D * D)]

VARIABLES val, cur, lay, dt, pend, act
vars == <<val, cur, lay, dt, pend, act>>
St == [val |-> val, cur |-> cur, lay |-> lay, dt |-> dt, pend |-> pend]
NoPend == [mode |-> "none", T |-> {}, val |-> [n \in Names |-> 0]]

Init == /\ val = [n \in Names |-> Alt[n][1]] /\ cur = 0 /\ lay = 0 /\ dt = 64
        /\ pend = NoPend /\ act = [op |-> "init"]
        /\ PrintT(ToJson([init |-> St]))

Given == {{}, {"y"}, {"w", "p"}}
Fwd == \E m \in Modes, T \in Given, g \in {0, 1} :
  IF lay # cur
  THEN /\ UNCHANGED <<val, cur, lay, dt, pend>>
       /\ act' = [op |-> "fwd", mode |-> m, T |-> SetToSeq(T), grad |-> g, res |-> "refused"]
  ELSE LET nv == Touch(val, T) IN
       /\ val' = nv /\ UNCHANGED <<cur, lay, dt>>
       /\ pend' = IF g = 1 /\ T # {} THEN [mode |-> m, T |-> T, val |-> nv] ELSE NoPend
       /\ act' = [op |-> "fwd", mode |-> m, T |-> SetToSeq(T), grad |-> g, res |-> "ok", x |-> Sol(nv)]
Bwd == /\ pend.mode # "none"
       /\ pend' = NoPend /\ UNCHANGED <<val, cur, lay, dt>>
       /\ act' = [op |-> "bwd", T |-> SetToSeq(pend.T), g |-> Grad(pend.val), mode |-> pend.mode]
Upd == \E n \in {"w"} : /\ val' = Touch(val, {n}) /\ UNCHANGED <<cur, lay, dt, pend>>
                        /\ act' = [op |-> "upd", T |-> <<n>>]
Edit == /\ cur < 1 /\ cur' = cur + 1 /\ UNCHANGED <<val, lay, dt, pend>>
        /\ act' = [op |-> "edit"]
Make == /\ lay # cur /\ lay' = cur /\ UNCHANGED <<val, cur, dt, pend>> /\ act' = [op |-> "make"]
To == /\ pend = NoPend /\ dt' = 96 - dt /\ UNCHANGED <<val, cur, lay, pend>> /\ act' = [op |-> "to"]

Next == Fwd \/ Bwd \/ Upd \/ Edit \/ Make \/ To
View == <<val, cur, lay, dt, pend>>
Edge == PrintT(ToJson([s |-> St, a |-> act', t |-> [val |-> val', cur |-> cur', lay |-> lay', dt |-> dt', pend |-> pend']]))

(* once stale, a layer stays stale *)
Stale == [][(lay # cur /\ act'.op # "make") => lay' # cur']_vars
Refuse == [][(act'.op = "fwd" /\ act'.res = "refused") => UNCHANGED <<val, pend>>]_vars
(* an output keeps its gradient until it is used or replaced *)
Keep == [][(pend.mode # "none" /\ act'.op \notin {"fwd", "bwd"}) => pend' = pend]_vars
Minimum == LET s == Sol(val) N == s[1] D == s[2] IN     \* gradient of the objective vanishes
             2 * val.w * val.w * (2 * N - val.y * D) + (N - val.p * D) = 0
Spec == Init /\ [][Next]_vars
=============================================================================
