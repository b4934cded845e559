---- MODULE Reuse ----
(* Components (operators, selections, creators, evaluators, breeders,        *)
(* sorters, checkers) are used again and again, by several owners, also      *)
(* after uses that failed.  What a use gives is a function of the component's *)
(* configuration, of what it is given and of the random draws, whatever has  *)
(* happened before: a used component is worth a new one.                     *)
(* mem: what a component remembers; glob: what all of a kind remember.       *)
(* The correct components may write there, but must not answer from it.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Comps, Ins, Draws, Conf, MaxUse, Bug
VARIABLES mem, glob, log
vars == <<mem, glob, log>>

Kept == [uses : 0..MaxUse, first : Ins \cup {0}, last : Ins \cup {0}, failed : BOOLEAN]
Nothing == [uses |-> 0, first |-> 0, last |-> 0, failed |-> FALSE]

\* what a new component of configuration k makes of i with the draws d
F(k, i, d) == <<k, i, d>>
Fails(k, i) == i = Conf[k]              \* an input that this configuration cannot handle

Out(c, i, d) ==
  LET k == Conf[c]
      m == mem[c]
      x == CASE Bug = "first_input" /\ m.first # 0 -> m.first
             [] Bug = "class_memory" /\ glob # 0 -> glob
             [] OTHER -> i
      y == CASE Bug = "worn" /\ m.uses >= 2 -> Ins
             [] Bug = "after_failure" /\ m.failed -> Ins
             [] OTHER -> {x}
  IN IF y = {x} THEN F(k, x, d) ELSE <<k, 0, d>>

Init == mem = [c \in Comps |-> Nothing] /\ glob = 0 /\ log = <<>>
Use(c, i, d) ==
  /\ Len(log) < MaxUse
  /\ LET bad == Fails(c, i) IN
     /\ log' = Append(log, [c |-> c, i |-> i, d |-> d, out |-> IF bad THEN <<"error">> ELSE Out(c, i, d)])
     /\ mem' = [mem EXCEPT ![c] = [uses |-> @.uses + 1, first |-> IF @.first = 0 THEN i ELSE @.first, last |-> i, failed |-> @.failed \/ bad]]
     /\ glob' = IF glob = 0 THEN i ELSE glob
Next == \E c \in Comps, i \in Ins, d \in Draws : Use(c, i, d)
Spec == Init /\ [][Next]_vars

TypeOK == mem \in [Comps -> Kept]
\* a used component answers as a new one does
AsNew == \A n \in DOMAIN log : log[n].out = IF Fails(log[n].c, log[n].i) THEN <<"error">> ELSE F(Conf[log[n].c], log[n].i, log[n].d)
\* so that equal uses of equally configured components always agree, whoever used them for what before
Agree(l) == \A m, n \in DOMAIN l :
  (Conf[l[m].c] = Conf[l[n].c] /\ l[m].i = l[n].i /\ l[m].d = l[n].d /\ l[m].out # <<"error">> /\ l[n].out # <<"error">>) => l[m].out = l[n].out
Agreed == Agree(log)
====
