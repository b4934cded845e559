------------------------------ MODULE InitPop ------------------------------
(* Creation of the initial population.  Every creator has settings and a      *)
(* weight; the subpopulation asks one of them once, or keeps the individuals  *)
(* it was given.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NC,        \* number of creators
          Weights,   \* creator -> weight
          N,         \* population size
          Supplied,  \* number of individuals supplied (0: none)
          Bug
VARIABLES inds,   \* sequence of [by, fo, hib, ev]: creator, fitness object, direction, evaluated
          asked,  \* sequence of [c, n, hib]
          hib, nfo, phase, calls
vars == <<inds, asked, hib, nfo, phase, calls>>

Given == [i \in 1..Supplied |-> [by |-> 0, fo |-> -i, hib |-> hib, ev |-> FALSE]]
Init == /\ hib \in BOOLEAN /\ nfo = 0 /\ asked = <<>> /\ phase = "new" /\ calls = 0
        /\ inds = [i \in 1..Supplied |-> [by |-> 0, fo |-> -i, hib |-> hib, ev |-> FALSE]]

Make(c, n, k) == [i \in 1..n |-> [by |-> c, fo |-> IF Bug = "shared_fitness" THEN 1 ELSE k + i,
                                   hib |-> IF Bug = "default_direction" THEN TRUE ELSE hib, ev |-> FALSE]]
Weight(c) == IF Bug = "ignore_weights" THEN 1 ELSE Weights[c]
Start == phase = "new" /\ phase' = "creating" /\ UNCHANGED <<inds, asked, hib, nfo, calls>>
Create == /\ phase = "creating"
          /\ IF inds # <<>> /\ ~(Bug = "recreate" /\ Len(inds) # N)
             THEN UNCHANGED <<inds, asked, nfo>> /\ phase' = "ready"
             ELSE \E c \in {x \in 1..NC : Weight(x) > 0} :
                    /\ LET n == IF Bug = "one_by_one" THEN 1 ELSE N IN
                         /\ inds' = (IF Bug = "recreate" THEN <<>> ELSE inds) \o Make(c, n, nfo)
                         /\ asked' = Append(asked, [c |-> c, n |-> n, hib |-> hib])
                         /\ nfo' = nfo + n
                    /\ phase' = "ready"
          /\ calls' = calls + 1 /\ UNCHANGED hib
More == /\ Bug = "one_by_one" /\ phase = "ready" /\ Len(inds) < N
        /\ \E c \in {x \in 1..NC : Weight(x) > 0} :
             /\ inds' = inds \o Make(c, 1, nfo) /\ asked' = Append(asked, [c |-> c, n |-> 1, hib |-> hib]) /\ nfo' = nfo + 1
        /\ UNCHANGED <<hib, phase, calls>>
Again == phase = "ready" /\ calls < 2 /\ phase' = "creating" /\ UNCHANGED <<inds, asked, hib, nfo, calls>>
Next == Start \/ Create \/ More \/ Again
Spec == Init /\ [][Next]_vars

(* ------------------------------ what a ready population must satisfy ----- *)
AskedOk(a, n, d, w, supplied) == IF supplied THEN a = <<>>
                                 ELSE Len(a) = 1 /\ a[1].n = n /\ a[1].hib = d /\ w[a[1].c] > 0
DistinctF(s) == \A i, j \in DOMAIN s : i # j => s[i].fo # s[j].fo
Ready == phase = "ready" => /\ AskedOk(asked, N, hib, Weights, Supplied > 0)
                            /\ DistinctF(inds) /\ \A i \in DOMAIN inds : inds[i].hib = hib /\ ~inds[i].ev
                            /\ (Supplied > 0 => inds = Given)
                            /\ (Supplied = 0 => Len(inds) = N /\ \A i \in DOMAIN inds : inds[i].by = asked[1].c)
=============================================================================
