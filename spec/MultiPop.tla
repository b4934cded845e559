------------------------------ MODULE MultiPop ------------------------------
(* One breeding step over several sub-populations.                           *)
(*                                                                           *)
(* Every sub-population has its own individuals, direction, number of        *)
(* elites, group size of its operators; the step breeds them one after the   *)
(* other.  An individual is described by where it comes from (its home and   *)
(* ancestor), its fitness and the homes of the operators that worked on it.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Better(a, b, hib) == IF hib THEN a > b ELSE a < b
IsBestFirst(order, fit, hib) ==
  /\ \A i, j \in DOMAIN order : i # j => order[i] # order[j]
  /\ \A i \in DOMAIN order : \A j \in DOMAIN fit :
        Better(fit[j], fit[order[i]], hib) => \E k \in 1..(i - 1) : order[k] = j

\* consecutive groups of a members each: the groups an operator is called with
Groups(s, a) == [k \in 1..(Len(s) \div a) |-> SubSeq(s, (k - 1) * a + 1, k * a)]

---------------------------------------------------------------------------
CONSTANTS S,        \* number of sub-populations
          N,        \* sizes: sequence
          E,        \* elites: sequence
          Hib,      \* directions: sequence
          Fit,      \* fitness values
          Bug

VARIABLES pop, old, cur, sel, ph
vars == <<pop, old, cur, sel, ph>>

Start(s, f) == [i \in 1..N[s] |-> [home |-> s, anc |-> i, fit |-> f[i], ops |-> <<>>]]

Init == /\ \E f \in [1..S -> [1..4 -> Fit]] : pop = [s \in 1..S |-> Start(s, f[s])]
        /\ old = pop /\ cur = 1 /\ sel = <<>> /\ ph = "select"

\* the individuals the selection chooses from
Source == IF Bug = "pooled" /\ cur = 2 /\ N[1] >= N[2] THEN pop[1] ELSE pop[cur]

Select == /\ ph = "select" /\ cur <= S
          /\ \E c \in [1..N[cur] -> DOMAIN Source] :
               sel' = [i \in 1..N[cur] |-> Source[c[i]]]
          /\ ph' = "operate" /\ UNCHANGED <<pop, old, cur>>

Operate == /\ ph = "operate"
           /\ LET home == IF Bug = "first_operators" THEN 1 ELSE cur
              IN sel' = [i \in DOMAIN sel |-> [sel[i] EXCEPT !.ops = Append(@, home), !.fit = 99]]
           /\ ph' = "replace" /\ UNCHANGED <<pop, old, cur>>

Fits(s) == [i \in DOMAIN pop[s] |-> pop[s][i].fit]
Elites(s, hib, n) == {o \in [1..n -> DOMAIN pop[s]] : IsBestFirst(o, Fits(s), hib)}

Replace == /\ ph = "replace"
           /\ LET hib == IF Bug = "first_direction" THEN Hib[1] ELSE Hib[cur]
                  ne == IF Bug = "first_elites" THEN (IF E[1] <= N[cur] THEN E[1] ELSE N[cur]) ELSE E[cur]
              IN \E o \in Elites(cur, hib, ne) :
                   pop' = [pop EXCEPT ![cur] = [k \in 1..ne |-> @[o[k]]] \o SubSeq(sel, 1, N[cur] - ne)]
           /\ cur' = cur + 1 /\ ph' = "select" /\ sel' = <<>> /\ UNCHANGED old

Next == Select \/ Operate \/ Replace
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bred(s) == s < cur
TypeOK == cur \in 1..(S + 1) /\ ph \in {"select", "operate", "replace"}
SizesKept == \A s \in 1..S : Len(pop[s]) = N[s]
NoMigration == \A s \in 1..S : \A i \in DOMAIN pop[s] : pop[s][i].home = s
OwnOperators == \A s \in 1..S : \A i \in DOMAIN pop[s] : \A k \in DOMAIN pop[s][i].ops : pop[s][i].ops[k] = s
Waits == \A s \in 1..S : ~Bred(s) => pop[s] = old[s]
OwnElites ==
  \A s \in 1..S : Bred(s) =>
    /\ \A k \in 1..E[s] : pop[s][k].ops = <<>>
    /\ IsBestFirst([k \in 1..E[s] |-> pop[s][k].anc], [i \in DOMAIN old[s] |-> old[s][i].fit], Hib[s])
    /\ \A i \in (E[s] + 1)..N[s] : pop[s][i].ops = <<s>>
AllBred == <>(cur = S + 1)
=============================================================================
