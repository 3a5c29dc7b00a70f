----------------------------- MODULE RegistryMC -----------------------------
EXTENDS Registry, Json, TLC

\* vars 1..4 regular; 5 is another object named like 1; 6 another named like 3
MCVars == << [name |-> "x", ok |-> TRUE], [name |-> "y", ok |-> TRUE],
             [name |-> "a", ok |-> TRUE], [name |-> "b", ok |-> TRUE],
             [name |-> "x", ok |-> TRUE], [name |-> "z", ok |-> FALSE] >>
MCWs == << [aux |-> <<3>>], [aux |-> <<4>>], [aux |-> <<>>] >>
MCCfs == << [name |-> "f1", optim |-> <<1, 2>>, aux |-> <<4>>, w |-> 1, dim |-> 2],
            [name |-> "f2", optim |-> <<2>>, aux |-> <<3>>, w |-> 1, dim |-> 1],
            [name |-> "f3", optim |-> <<1, 1>>, aux |-> <<>>, w |-> 2, dim |-> 3],
            [name |-> "f4", optim |-> <<5>>, aux |-> <<>>, w |-> 3, dim |-> 1],
            [name |-> "f1", optim |-> <<2>>, aux |-> <<>>, w |-> 3, dim |-> 1],
            [name |-> "f6", optim |-> <<4>>, aux |-> <<>>, w |-> 3, dim |-> 1],
            [name |-> "f7", optim |-> <<2>>, aux |-> <<6>>, w |-> 2, dim |-> 1],
            [name |-> "f8", optim |-> <<2, 1>>, aux |-> <<3, 4>>, w |-> 2, dim |-> 2] >>
Cat == [vars |-> MCVars, ws |-> MCWs, cfs |-> MCCfs]

VARIABLES st, act
vars == <<st, act>>

Init == st = Empty(Cat) /\ act = [op |-> "init"] /\ PrintT(ToJson([cat |-> Cat]))
        /\ PrintT(ToJson([init |-> Obs(Cat, Empty(Cat))]))

DoAdd(f) == LET r == Add(Cat, st, f) IN
            st' = r[2] /\ act' = [op |-> "add", f |-> f, res |-> r[1]]
DoErase(n) == LET r == Erase(Cat, st, n) IN
              st' = r[2] /\ act' = [op |-> "erase", name |-> n, res |-> r[1]]
Next == \/ \E f \in DOMAIN MCCfs : DoAdd(f)
        \/ \E n \in {"f1", "f2", "f3", "f4", "f8", "nope"} : DoErase(n)

View == st
Edge == PrintT(ToJson([s |-> Obs(Cat, st), a |-> act', t |-> Obs(Cat, st')]))
Inv == RegistryExact(Cat, st)
Spec == Init /\ [][Next]_vars
==============================================================================
