---- MODULE Defaults ----
(* Options that are left out.  A component of kind k has the options         *)
(* DOMAIN Table[k]; Table[k][o] is the default of o.  Leaving o out is the    *)
(* same as giving Table[k][o], whatever the other options are, and a default *)
(* that is an object belongs to the instance alone (Objects: the kinds and   *)
(* options whose default is one; its state is the number of uses it has seen)*)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Table, Others, Objects, MaxInst, MaxUse, Bug
VARIABLES inst, obj, log
vars == <<inst, obj, log>>

Given(k) == UNION {[S -> {"d", "o"}] : S \in SUBSET DOMAIN Table[k]}   \* which options are given: their default, or another value
Value(k, g, o) == IF g[o] = "d" THEN Table[k][o] ELSE Others[k][o]
\* the values in force; t is the table of defaults, v the given values
Effective(t, v) == [o \in DOMAIN t |-> IF o \in DOMAIN v THEN v[o] ELSE t[o]]

GivenValues(k, g) == [o \in DOMAIN g |-> Value(k, g, o)]

\* what instance i was made with, as the code under the design error Bug sees it
Seen(i) ==
  LET x == inst[i]
      t == Table[x.k]
      v == GivenValues(x.k, x.g)
      before == {j \in 1..(i-1) : inst[j].k = x.k}
      last == IF before = {} THEN 0 ELSE CHOOSE j \in before : \A h \in before : h <= j
  IN CASE Bug = "sticky" /\ last # 0 ->      \* an option left out has the value of the instance before
            [o \in DOMAIN t |-> IF o \in DOMAIN v THEN v[o] ELSE Effective(t, GivenValues(x.k, inst[last].g))[o]]
       [] Bug = "together" /\ DOMAIN v # {} /\ DOMAIN v # DOMAIN t ->    \* giving one option changes the default of another
            [o \in DOMAIN t |-> IF o \in DOMAIN v THEN v[o] ELSE Others[x.k][o]]
       [] OTHER -> Effective(t, v)

Init == inst = <<>> /\ obj = [a \in {} |-> 0] /\ log = <<>>
\* the object an instance works on: its own one, or (Bug) one for all whose option was left out
Address(i) == IF Bug = "shared" /\ <<inst[i].k, inst[i].object>> \in Objects /\ inst[i].object \notin DOMAIN inst[i].g THEN 0 ELSE i
Make(k, g) ==
  /\ Len(inst) < MaxInst
  /\ inst' = Append(inst, [k |-> k, g |-> g, object |-> IF \E o \in DOMAIN Table[k] : <<k, o>> \in Objects THEN CHOOSE o \in DOMAIN Table[k] : <<k, o>> \in Objects ELSE "none"])
  /\ UNCHANGED <<obj, log>>
Uses(a) == IF a \in DOMAIN obj THEN obj[a] ELSE 0
Use(i) ==
  /\ Len(log) < MaxUse
  /\ log' = Append(log, [i |-> i, k |-> inst[i].k, eff |-> Effective(Table[inst[i].k], GivenValues(inst[i].k, inst[i].g)),
                         n |-> Cardinality({m \in DOMAIN log : log[m].i = i}), out |-> <<Seen(i), Uses(Address(i))>>])
  /\ obj' = [a \in DOMAIN obj \cup {Address(i)} |-> Uses(a) + (IF a = Address(i) THEN 1 ELSE 0)]
  /\ UNCHANGED inst
Next == (\E k \in DOMAIN Table : \E g \in Given(k) : Make(k, g)) \/ (\E i \in DOMAIN inst : Use(i))
Spec == Init /\ [][Next]_vars

\* an entry: [k, eff, n, out]: the outcome is a function of kind, values in force and what the instance itself has done before
Agree(l) == \A m, n \in DOMAIN l : (l[m].k = l[n].k /\ l[m].eff = l[n].eff /\ l[m].n = l[n].n) => l[m].out = l[n].out
Same == Agree(log)
Right == \A m \in DOMAIN log : log[m].out = <<log[m].eff, log[m].n>>
====
