-------------------------------- MODULE Copy --------------------------------
(* Several objectives, each created by copying another one (or a copy of it).

   An objective is a record [reg, val]: the registered cost functions and its own
   tensors.  Copy duplicates the record; every other operation changes exactly
   the objective it is called on.  The sharing graph is part of the state: an
   objective has exactly one variable per name and one weight object per weight
   of the catalog in use, and no object belongs to two objectives.             *)
EXTENDS Store

CopyOf(objs, k) == Append(objs, objs[k])
SetVal(objs, k, val) == [objs EXCEPT ![k].val = val]
SetReg(objs, k, reg) == [objs EXCEPT ![k].reg = reg]

\* what an objective must look like from the outside
WKey(C, f) == <<C.cfs[f].w.ty, C.cfs[f].w.v>>
Names(C, s) == [i \in DOMAIN s |-> C.vars[s[i]].name]
Struct(C, reg) ==
  [i \in DOMAIN reg |->
     LET f == reg[i] IN
     [name |-> C.cfs[f].name, o |-> Names(C, C.cfs[f].o), a |-> Names(C, C.cfs[f].a),
      w |-> <<C.vars[C.cfs[f].w.v].name>>,
      \* index of the first registered cost function with the very same weight object
      ws |-> CHOOSE j \in DOMAIN reg : WKey(C, reg[j]) = WKey(C, f) /\
                 \A k \in 1..(j - 1) : WKey(C, reg[k]) # WKey(C, f)]]

ValKnown(C, o) == {<<C.vars[v].name, o.val[v]>> : v \in Known(C, o.reg)}
=============================================================================
