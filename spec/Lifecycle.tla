----------------------------- MODULE Lifecycle -----------------------------
(* Individuals and their fitness: clone, copy, pickle, evaluate, invalidate, *)
(* operate, read, compare.  `want` is the abstract state (values only);      *)
(* `obj`/`gen`/`fit` is the heap the code works on (references).  The heap   *)
(* must always look like the abstract state: nothing done to one individual  *)
(* shows through another, and a fitness is never readable when stale.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == 100000000
NONE == <<>>              \* no fitness; a single-objective one is <<f>>

Aug(f, w, size, hib) == IF f >= INF \/ f <= -INF THEN f
                        ELSE IF hib THEN f - w * size ELSE f + w * size
Lt(a, b, hib) == IF hib THEN a > b ELSE a < b

\* abstract operations on a value [g, f, cache, rel, sel, ops, par, cf, id, ...]
CacheOn(x) == x.cache /\ ~x.rel
Stale(x) == [x EXCEPT !.f = NONE]
SetF(x, v) == [x EXCEPT !.f = v]
CopyV(x) == IF CacheOn(x) THEN x ELSE Stale(x)                  \* deepcopy, pickle
CloneV(x, id) == [CopyV(x) EXCEPT !.id = id, !.cf = x.id, !.sel = <<>>, !.ops = <<>>, !.par = <<>>]

(***************************************************************************)
CONSTANTS Slots, Vals, Genomes, MaxSteps, Bug
VARIABLES want,   \* slot -> abstract value (id 0 when free)
          obj,    \* slot -> [g |-> ref, f |-> ref, id, cf, nops]
          gs, fs, \* heaps of genomes and of fitness objects
          nid, steps
vars == <<want, obj, gs, fs, nid, steps>>

New(g, c) == [g |-> g, f |-> NONE, cache |-> c, rel |-> FALSE, sel |-> <<>>, ops |-> <<>>, par |-> <<>>, cf |-> -1, id |-> 0]

Init == /\ \E g \in Genomes, c \in BOOLEAN :
             /\ want = [s \in Slots |-> IF s = 1 THEN [New(g, c) EXCEPT !.id = 1] ELSE New(g, c)]
             /\ gs = <<g>> /\ fs = <<[v |-> NONE, cache |-> c]>>
        /\ obj = [s \in Slots |-> IF s = 1 THEN [g |-> 1, f |-> 1, id |-> 1, cf |-> -1, nops |-> 0] ELSE [g |-> 1, f |-> 1, id |-> 0, cf |-> -1, nops |-> 0]]
        /\ nid = 2 /\ steps = 0

Used == {s \in Slots : want[s].id # 0}

Set(s, v) == /\ want' = [want EXCEPT ![s] = SetF(@, v)]
             /\ fs' = [fs EXCEPT ![obj[s].f].v = v]
             /\ UNCHANGED <<obj, gs, nid>>
Operate(s, g, fails) ==
             /\ want' = [want EXCEPT ![s] = [Stale(@) EXCEPT !.g = IF fails THEN want[s].g ELSE g, !.ops = Append(@, "op")]]
             /\ gs' = [gs EXCEPT ![obj[s].g] = IF fails THEN @ ELSE g]
             /\ fs' = IF Bug = "keep_fitness" \/ (fails /\ Bug = "keep_on_fail") THEN fs ELSE [fs EXCEPT ![obj[s].f].v = NONE]
             /\ obj' = [obj EXCEPT ![s].nops = @ + 1]
             /\ UNCHANGED nid
Clone(s, t) == /\ want' = [want EXCEPT ![t] = CloneV(want[s], nid)]
               /\ gs' = IF Bug = "shallow_genome" THEN gs ELSE Append(gs, gs[obj[s].g])
               /\ fs' = IF Bug = "shared_fitness" THEN fs
                        ELSE Append(fs, IF fs[obj[s].f].cache \/ Bug = "always_cached" THEN fs[obj[s].f] ELSE [fs[obj[s].f] EXCEPT !.v = NONE])
               /\ obj' = [obj EXCEPT ![t] = [g |-> IF Bug = "shallow_genome" THEN obj[s].g ELSE Len(gs) + 1,
                                             f |-> IF Bug = "shared_fitness" THEN obj[s].f ELSE Len(fs) + 1,
                                             id |-> nid, cf |-> obj[s].id, nops |-> 0]]
               /\ nid' = nid + 1
Next == /\ steps < MaxSteps /\ steps' = steps + 1
        /\ \/ \E s \in Used, v \in Vals : Set(s, <<v>>)
           \/ \E s \in Used, g \in Genomes, b \in BOOLEAN : Operate(s, g, b)
           \/ \E s \in Used, t \in Slots : s # t /\ Clone(s, t)
Spec == Init /\ [][Next]_vars

Looks(s) == /\ gs[obj[s].g] = want[s].g
            /\ fs[obj[s].f].v = want[s].f
            /\ obj[s].id = want[s].id /\ obj[s].cf = want[s].cf /\ obj[s].nops = Len(want[s].ops)
Isolation == \A s \in Used : gs[obj[s].g] = want[s].g /\ Looks(s)
DistinctIds == \A s, t \in Used : s # t => obj[s].id # obj[t].id
=============================================================================
