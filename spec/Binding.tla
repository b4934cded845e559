---- MODULE Binding ----
(* Primitives and data of genetic programming as they are declared.          *)
(* A function is a sequence of declared parameter types ("none": undeclared) *)
(* and a return type; reflection sees its declarations as one ordered list   *)
(* (declared parameters in order, then the return type) and has to say which *)
(* child slot has which type, or to refuse.  A table has named columns x0,   *)
(* x1, ...; a tree over those names is evaluated column-wise.                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Types, MaxP, MaxC, MaxR, Bug
VARIABLES phase, fun, hints, slots, table, want, res
vars == <<phase, fun, hints, slots, table, want, res>>
N == "none"
Decl(f) == {i \in DOMAIN f.params : f.params[i] # N}
AllDeclared(f) == Decl(f) = DOMAIN f.params /\ f.ret # N
NoneDeclared(f) == Decl(f) = {} /\ f.ret = N
Accepted(f) == AllDeclared(f) \/ NoneDeclared(f)
SlotTypes(f) == Append(f.params, f.ret)     \* one per parameter, in order, the return type last
Name(i) == "x" \o ToString(i - 1)
Names(m) == [i \in 1..m |-> Name(i)]
Column(t, i) == [r \in DOMAIN t |-> t[r][i]]

\* the list of declarations, as reflection gives it
Hints(f) == LET RECURSIVE H(_)
                H(i) == IF i > Len(f.params) THEN (IF f.ret = N THEN <<>> ELSE <<f.ret>>)
                        ELSE (IF f.params[i] = N THEN <<>> ELSE <<f.params[i]>>) \o H(i + 1)
            IN H(1)
Funs == UNION {[params : [1..n -> Types \cup {N}], ret : Types \cup {N}] : n \in 0..MaxP}
Tables == UNION {[1..r -> [1..c -> 0..1]] : r \in 1..MaxR, c \in 1..MaxC}
Refused == <<"refused">>
Init == phase = "look" /\ fun \in Funs /\ hints = <<>> /\ slots = <<>> /\ table \in Tables /\ want = <<>> /\ res = <<>>
Look == phase = "look" /\ hints' = Hints(fun) /\ phase' = "decide" /\ UNCHANGED <<fun, slots, table, want, res>>
\* what reflection can do with nothing but the list and the number of parameters
Decide ==
  /\ phase = "decide"
  /\ LET n == Len(fun.params) IN
     slots' = CASE hints = <<>> -> [i \in 1..n+1 |-> N]
                [] Len(hints) < n + 1 /\ ~(Bug = "short" /\ Len(hints) = n) -> Refused
                [] Bug = "return_first" -> <<hints[Len(hints)]>> \o SubSeq(hints, 1, Len(hints) - 1)
                [] OTHER -> hints
  /\ phase' = "bind" /\ UNCHANGED <<fun, hints, table, want, res>>
\* evaluate a tree that lists the chosen terminals over the whole table
Bind ==
  /\ phase = "bind"
  /\ \E c \in 1..Len(table[1]) : want' = <<c>>
  /\ res' = LET c == want'[1] IN
            CASE Bug = "row" -> table[IF c \in DOMAIN table THEN c ELSE 1]
              [] Bug = "from_one" -> Column(table, IF c = 1 THEN 1 ELSE c - 1)
              [] OTHER -> Column(table, c)
  /\ phase' = "done" /\ UNCHANGED <<fun, hints, slots, table>>
Next == Look \/ Decide \/ Bind
Spec == Init /\ [][Next]_vars

Reflected == phase \in {"bind", "done"} => IF Accepted(fun) THEN slots = SlotTypes(fun) ELSE slots = Refused
\* each row sees its own value of that column, and there is one result for each row
RowWise == phase = "done" => Len(res) = Len(table) /\ \A r \in DOMAIN table : res[r] = table[r][want[1]]
====
