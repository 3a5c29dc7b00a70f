------------------------------- MODULE CopyMC -------------------------------
(* Exhaustive exploration: copies, copies of copies, updates of any of them.   *)
EXTENDS Copy, TLC, Json

V(n) == [name |-> n, ty |-> "vec", d |-> 1]
Cf(n, ty, o, a, w) == [name |-> n, ty |-> ty, o |-> o, a |-> a, w |-> [ty |-> "scale", v |-> w]]
\* y shared by two cost functions; f1/f2 share their weight; f3's weight variable is f3's aux variable
Cat == [vars |-> <<V("x"), V("y"), V("a"), V("w"), V("u")>>,
        cfs  |-> <<Cf("f1", "btw", <<1, 2>>, <<3>>, 4), Cf("f2", "diff", <<2>>, <<3>>, 4),
                   Cf("f3", "diff", <<1>>, <<5>>, 5)>>]
Val0 == [v \in 1..5 |-> <<<<IF v = 4 THEN 1 ELSE 0>>>>]

VARIABLES objs, act
vars == <<objs, act>>
Start == <<[reg |-> <<1, 2, 3>>, val |-> Val0]>>
Init == objs = Start /\ act = [op |-> "init"] /\ PrintT(ToJson([init |-> Start, cat |-> Cat]))

DoCopy == /\ Len(objs) < 3
          /\ \E k \in 1..Len(objs) : objs' = CopyOf(objs, k) /\ act' = [op |-> "copy", k |-> k]
DoUpdate == \E k \in 1..Len(objs), x \in {0, 1} : \E v \in Known(Cat, objs[k].reg) :
   LET ins == <<[name |-> Cat.vars[v].name, bad |-> 0, t |-> <<<<x>>>>]>>
       v1 == Update(Cat, objs[k].reg, objs[k].val, ins, <<>>)[2]
   IN /\ v1 # objs[k].val
      /\ objs' = SetVal(objs, k, v1)
      /\ act' = [op |-> "update", k |-> k, ins |-> ins]
DoErase == \E k \in 2..Len(objs) :
   /\ 1 \in Rng(objs[k].reg)
   /\ objs' = SetReg(objs, k, SelectSeq(objs[k].reg, LAMBDA g : g # 1))
   /\ act' = [op |-> "erase", k |-> k, f |-> 1]
Next == DoCopy \/ DoUpdate \/ DoErase
Spec == Init /\ [][Next]_vars

Dev(o) == Cardinality({v \in 1..5 : o.val[v] # Val0[v]})
Bound == \A k \in 1..Len(objs) : Dev(objs[k]) <= (IF Len(objs) = 3 THEN 1 ELSE 2)
View == objs
Edge == Bound' => PrintT(ToJson([s |-> objs, a |-> act', t |-> objs']))

\* an operation on one objective changes no other; a copy has the same errors
Frame == [][\A k \in 1..Len(objs) :
              (act'.op = "copy" \/ act'.k # k) => objs'[k] = objs[k]]_vars
Faithful == [][act'.op = "copy" =>
              LET n == objs'[Len(objs')] IN
              /\ n = objs[act'.k]
              /\ ErrorVec(Cat, n.reg, n.val) = ErrorVec(Cat, objs[act'.k].reg, objs[act'.k].val)]_vars
=============================================================================
