------------------------------ MODULE StoreMC ------------------------------
EXTENDS Store, Json, TLC

MCVars == << [name |-> "x", ty |-> "vec", d |-> 1], [name |-> "a", ty |-> "vec", d |-> 1],
             [name |-> "w", ty |-> "vec", d |-> 1], [name |-> "k", ty |-> "vec", d |-> 1] >>
W == [ty |-> "scale", v |-> 3]
MCCfs == << [name |-> "f1", ty |-> "diff", o |-> <<1>>, a |-> <<2>>, w |-> W],
            [name |-> "f2", ty |-> "quad", o |-> <<1>>, a |-> <<4>>, w |-> W],
            [name |-> "f3", ty |-> "diff", o |-> <<1>>, a |-> <<4>>, w |-> W] >>
Regs == {<<1, 2, 3>>, <<1, 3>>, <<3, 1>>, <<3, 1, 2>>, <<3>>}
Cat == [vars |-> MCVars, cfs |-> MCCfs]
Val0 == [v \in 1..4 |-> <<<<IF v >= 3 THEN 1 ELSE 0>>>>]

VARIABLES reg, val, vec, act
vars == <<reg, val, vec, act>>

Init == /\ reg = <<1, 2, 3>> /\ val = Val0 /\ vec = FALSE /\ act = [op |-> "init"]
        /\ PrintT(ToJson([cat |-> Cat]))
        /\ PrintT(ToJson([init |-> [reg |-> reg, val |-> val, vec |-> vec]]))

Tensors == { << <<1>> >>, << <<0>>, <<1>> >> }
Masks == { <<>>, <<1, 0>> }

DoUpdate == \E n \in {"x", "a", "w"}, t \in Tensors, m \in Masks :
  LET ins == <<[name |-> n, bad |-> 0, t |-> t]>>
      r == Update(Cat, reg, val, ins, m)
  IN /\ (m # <<>> => Len(t) = 2)
     /\ val' = r[2] /\ UNCHANGED <<reg, vec>> /\ r[1] = "ok"
     /\ act' = [op |-> "update", ins |-> ins, mask |-> m]
DoTemp == \E n \in {"k", "w"}, t \in Tensors :
  LET ins == <<[name |-> n, bad |-> 0, t |-> t]>>
      r == Update(Cat, reg, val, ins, <<>>)
  IN /\ r[1] = "ok" /\ UNCHANGED <<reg, val, vec>>
     /\ act' = [op |-> "error", ins |-> ins, also |-> 0, res |-> ErrorVec(Cat, reg, r[2])]
DoError == /\ UNCHANGED <<reg, val, vec>>
           /\ act' = [op |-> "error", ins |-> <<>>, also |-> 0, res |-> ErrorVec(Cat, reg, val)]
DoLin == /\ UNCHANGED <<reg, val, vec>>
         /\ LET ord == OptVars(Cat, reg) IN
            act' = [op |-> "lin", ord |-> ord, A |-> LinA(Cat, reg, val, ord), b |-> LinB(Cat, reg, val)]
DoRetract == \E m \in Masks, s \in {1, -1} :
  LET ord == OptVars(Cat, reg)
      n == Batch(Cat, reg, val)
      delta == [b \in 1..n |-> [i \in DOMAIN ord |-> IF i = 1 THEN s ELSE -s]]
  IN /\ (m # <<>> => n = 2)
     /\ val' = Retract(Cat, reg, val, ord, delta, m, FALSE)
     /\ UNCHANGED <<reg, vec>>
     /\ act' = [op |-> "retract", ord |-> ord, delta |-> delta, mask |-> m, force |-> 0]
DoAdd == \E f \in DOMAIN MCCfs : /\ f \notin Rng(reg) /\ reg' = Append(reg, f)
                                 /\ reg' \in Regs /\ Consistent(Cat, reg', val)
                                 /\ vec' = FALSE /\ UNCHANGED val /\ act' = [op |-> "add", f |-> f]
DoErase == \E f \in Rng(reg) : /\ Len(reg) > 1 /\ SelectSeq(reg, LAMBDA g : g # f) \in Regs
                               /\ reg' = SelectSeq(reg, LAMBDA g : g # f)
                               /\ vec' = FALSE /\ UNCHANGED val /\ act' = [op |-> "erase", f |-> f]
DoVec == vec' = TRUE /\ UNCHANGED <<reg, val>> /\ act' = [op |-> "vec"]

Next == DoUpdate \/ DoTemp \/ DoError \/ DoLin \/ DoRetract \/ DoAdd \/ DoErase \/ DoVec
Bound == \A v \in 1..4 : \A b \in DOMAIN val[v] : val[v][b][1] \in 0..1
View == <<reg, val, vec>>
Edge == Bound' => PrintT(ToJson([s |-> [reg |-> reg, val |-> val, vec |-> vec], a |-> act',
                        t |-> [reg |-> reg', val |-> val', vec |-> vec']]))
Inv == Consistent(Cat, reg, val)
Frame == [][act'.op = "update" => UpdateFrame(Cat, reg, val, val', act'.ins, act'.mask)]_vars
Pure == [][act'.op \in {"error", "lin", "vec"} => val' = val /\ reg' = reg]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
