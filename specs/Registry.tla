------------------------------ MODULE Registry ------------------------------
(* The bookkeeping of theseus.Objective: which cost functions are registered,
   which variables that makes known (and in which order), and which functions
   are connected to each variable.

   A catalog C fixes the objects a history may use:
     C.vars : sequence of [name, ok]           (object id = index, ok = right dtype)
     C.ws   : sequence of [aux]                (cost weights, aux = variable ids)
     C.cfs  : sequence of [name, optim, aux, w, dim]
   Two different objects may carry the same name.                            *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

WTOK == 1000  \* a weight j appears among connected functions as token WTOK + j

Range1(s) == {s[i] : i \in DOMAIN s}

Empty(C) == [reg |-> <<>>, wts |-> <<>>, oo |-> <<>>, ao |-> <<>>,
             fo |-> [v \in DOMAIN C.vars |-> <<>>],
             fa |-> [v \in DOMAIN C.vars |-> <<>>]]

RegNames(C, st) == {C.cfs[st.reg[i]].name : i \in DOMAIN st.reg}
NewVars(C, f) == C.cfs[f].optim \o C.cfs[f].aux \o C.ws[C.cfs[f].w].aux
Known(st) == Range1(st.oo) \cup Range1(st.ao)

\* two different objects with one name
NameClash(C, st, f) ==
  LET U == Known(st) \cup Range1(NewVars(C, f)) IN
  \E u, v \in U : u # v /\ C.vars[u].name = C.vars[v].name

BadType(C, f) == \E v \in Range1(NewVars(C, f)) : ~C.vars[v].ok

\* one variable both optimised and auxiliary
Dual(C, st, f) ==
  LET o == Range1(C.cfs[f].optim) \cup Range1(st.oo)
      a == Range1(C.cfs[f].aux) \cup Range1(C.ws[C.cfs[f].w].aux) \cup Range1(st.ao)
  IN o \cap a # {}

RECURSIVE AppendNew(_, _)
AppendNew(ord, vs) ==
  IF vs = <<>> THEN ord
  ELSE AppendNew(IF Head(vs) \in Range1(ord) THEN ord ELSE Append(ord, Head(vs)), Tail(vs))

\* connect function token t to every occurrence in vs
RECURSIVE Connect(_, _, _)
Connect(fn, vs, t) ==
  IF vs = <<>> THEN fn
  ELSE Connect([fn EXCEPT ![Head(vs)] = Append(@, t)], Tail(vs), t)

Drop(fn, t) == [v \in DOMAIN fn |-> SelectSeq(fn[v], LAMBDA x : x # t)]

\* outcome of add(f): <<tag, state>>
Add(C, st, f) ==
  LET cf == C.cfs[f] IN
  IF f \in Range1(st.reg) THEN <<"dup", st>>
  ELSE IF cf.name \in RegNames(C, st) THEN <<"ValueError", st>>
  ELSE IF BadType(C, f) \/ NameClash(C, st, f) \/ Dual(C, st, f) THEN <<"ValueError", st>>
  ELSE
    LET isNewW == cf.w \notin Range1(st.wts)
        waux == C.ws[cf.w].aux
        fo1 == Connect(st.fo, cf.optim, f)
        fa1 == Connect(st.fa, cf.aux, f)
    IN <<"ok",
        [reg |-> Append(st.reg, f),
         wts |-> IF isNewW THEN Append(st.wts, cf.w) ELSE st.wts,
         oo  |-> AppendNew(st.oo, cf.optim),
         ao  |-> IF isNewW THEN AppendNew(AppendNew(st.ao, cf.aux), waux)
                 ELSE AppendNew(st.ao, cf.aux),
         fo  |-> fo1,
         fa  |-> IF isNewW THEN Connect(fa1, waux, WTOK + cf.w) ELSE fa1]>>

\* outcome of erase(name)
Erase(C, st, name) ==
  IF name \notin RegNames(C, st) THEN <<"absent", st>>
  ELSE
    LET f == CHOOSE x \in Range1(st.reg) : C.cfs[x].name = name
        w == C.cfs[f].w
        reg1 == SelectSeq(st.reg, LAMBDA x : x # f)
        lastW == ~\E x \in Range1(reg1) : C.cfs[x].w = w
        fo1 == Drop(st.fo, f)
        fa1 == IF lastW THEN Drop(Drop(st.fa, f), WTOK + w) ELSE Drop(st.fa, f)
    IN <<"ok",
        [reg |-> reg1,
         wts |-> IF lastW THEN SelectSeq(st.wts, LAMBDA x : x # w) ELSE st.wts,
         oo  |-> SelectSeq(st.oo, LAMBDA v : fo1[v] # <<>>),
         ao  |-> SelectSeq(st.ao, LAMBDA v : fa1[v] # <<>>),
         fo  |-> fo1, fa |-> fa1]>>

RECURSIVE SumDim(_, _)
SumDim(C, s) == IF s = <<>> THEN 0 ELSE C.cfs[Head(s)].dim + SumDim(C, Tail(s))

Names(vars, s) == [i \in DOMAIN s |-> vars[s[i]].name]

\* what the public API must show in state st
Obs(C, st) ==
  [cfs |-> st.reg,
   ov  |-> st.oo,
   av  |-> st.ao,
   fo  |-> [i \in DOMAIN st.oo |-> st.fo[st.oo[i]]],
   fa  |-> [i \in DOMAIN st.ao |-> st.fa[st.ao[i]]],
   dim |-> SumDim(C, st.reg),
   size |-> <<Len(st.reg), Len(st.oo), Len(st.ao)>>]

------------------------------------------------------------------------------
(* Design invariants: everything known is exactly what the registered cost
   functions reach.                                                           *)
Reach(C, st) ==
  [o |-> UNION {Range1(C.cfs[f].optim) : f \in Range1(st.reg)},
   a |-> UNION {Range1(C.cfs[f].aux) \cup Range1(C.ws[C.cfs[f].w].aux) : f \in Range1(st.reg)},
   w |-> {C.cfs[f].w : f \in Range1(st.reg)}]

NoDups(s) == Cardinality(Range1(s)) = Len(s)

RegistryExact(C, st) ==
  LET r == Reach(C, st) IN
  /\ Range1(st.oo) = r.o /\ Range1(st.ao) = r.a /\ Range1(st.wts) = r.w
  /\ NoDups(st.oo) /\ NoDups(st.ao) /\ NoDups(st.reg) /\ NoDups(st.wts)
  /\ r.o \cap r.a = {}
  /\ Cardinality(RegNames(C, st)) = Len(st.reg)
  /\ \A u, v \in r.o \cup r.a : C.vars[u].name = C.vars[v].name => u = v
  /\ \A v \in DOMAIN C.vars : st.fo[v] # <<>> <=> v \in r.o
  /\ \A v \in DOMAIN C.vars : st.fa[v] # <<>> <=> v \in r.a
  /\ \A f \in DOMAIN C.cfs, v \in DOMAIN C.vars :
        Len(SelectSeq(st.fo[v], LAMBDA x : x = f)) =
          IF f \in Range1(st.reg) THEN Len(SelectSeq(C.cfs[f].optim, LAMBDA x : x = v)) ELSE 0
==============================================================================
