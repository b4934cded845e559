------------------------------ MODULE Persist ------------------------------
(* Copying (deepcopy, pickle, save and load) of algorithms at any point of    *)
(* their life.  An algorithm is a phase, counters and references into a heap  *)
(* of individuals; evolving is deterministic in the seed.  A copy has its own *)
(* individuals and executor, and the same aliasing inside (the best of the    *)
(* run is a member of the population exactly if it was one in the original).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Algs, Seeds, N, MaxGen, M, MaxCopies, Bug
VARIABLES a,      \* alg -> [ph, gen, seed, gseed, pop (refs), best (ref, 0: none), ex (executor), lin (how it came to be)]
          heap,   \* ref -> [g (genome), gen (stamp)]
          ex,     \* executor -> "open" / "shut"
          steps,  \* ghost: alg -> own evolution steps so far, inherited by copies
          copies
vars == <<a, heap, ex, steps, copies>>

Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Gene(seed, i) == (seed * 3 + i * 5 + 1) % M
Evolve(g, seed) == (g * 2 + seed + 1) % M

\* what a run of a seed looks like after k steps (declarative)
RECURSIVE Traj(_, _)
Traj(s, k) ==
  IF k = 0 THEN [ph |-> "new", gen |-> 0, gseed |-> s, pop |-> <<>>, best |-> -1]
  ELSE LET p == Traj(s, k - 1) IN
    IF p.ph = "new" THEN LET q == [i \in 1..N |-> Gene(s, i)] IN
         [ph |-> "run", gen |-> 0, gseed |-> s, pop |-> q, best |-> Max({q[i] : i \in 1..N})]
    ELSE IF p.gen = MaxGen THEN [p EXCEPT !.ph = "done"]
    ELSE LET s2 == p.gseed + 1
             q == [i \in 1..N |-> Evolve(p.pop[i], s2)] IN
         [ph |-> "run", gen |-> p.gen + 1, gseed |-> s2, pop |-> q, best |-> Max({p.best} \cup {q[i] : i \in 1..N})]

View(x) == [ph |-> a[x].ph, gen |-> a[x].gen, gseed |-> a[x].gseed, pop |-> [i \in DOMAIN a[x].pop |-> heap[a[x].pop[i]].g],
            best |-> IF a[x].best = 0 THEN -1 ELSE heap[a[x].best].g]
Alias(x) == {i \in DOMAIN a[x].pop : a[x].pop[i] = a[x].best}
Refs(x) == {a[x].pop[i] : i \in DOMAIN a[x].pop} \cup ({a[x].best} \ {0})

Free == [ph |-> "free", gen |-> 0, seed |-> 0, gseed |-> 0, pop |-> <<>>, best |-> 0, ex |-> 0]
New(s, e) == [ph |-> "new", gen |-> 0, seed |-> s, gseed |-> s, pop |-> <<>>, best |-> 0, ex |-> e]
First == CHOOSE x \in Algs : \A y \in Algs : x <= y
Init == \E s \in Seeds : /\ a = [x \in Algs |-> IF x = First THEN New(s, 1) ELSE Free]
                         /\ heap = <<>> /\ ex = <<"open">> /\ steps = [x \in Algs |-> 0] /\ copies = 0

Better(h, p) == CHOOSE i \in DOMAIN p : \A j \in DOMAIN p : h[p[i]].g >= h[p[j]].g
Start(x) == /\ a[x].ph = "new" /\ ex[a[x].ex] = "open"
            /\ heap' = heap \o [i \in 1..N |-> [g |-> Gene(a[x].seed, i), gen |-> 0]]
            /\ LET p == [i \in 1..N |-> Len(heap) + i] IN a' = [a EXCEPT ![x].ph = "run", ![x].pop = p, ![x].best = p[Better(heap', p)]]
            /\ steps' = [steps EXCEPT ![x] = @ + 1] /\ UNCHANGED <<ex, copies>>
\* the new generation consists of new objects, but members are also written to in place (their stamp; with
\* `in_place`, their genome)
Gen(x) == /\ a[x].ph = "run" /\ a[x].gen < MaxGen /\ ex[a[x].ex] = "open"
          /\ LET s2 == a[x].gseed + 1
                 q == [i \in 1..N |-> [g |-> Evolve(heap[a[x].pop[i]].g, s2), gen |-> a[x].gen + 1]]
                 keepbest == \A i \in 1..N : heap[a[x].best].g >= q[i].g
             IN IF Bug = "shallow"
                THEN /\ heap' = [r \in DOMAIN heap |-> IF \E i \in 1..N : a[x].pop[i] = r /\ r # a[x].best
                                                       THEN q[CHOOSE i \in 1..N : a[x].pop[i] = r] ELSE heap[r]]
                     /\ a' = [a EXCEPT ![x].gen = @ + 1, ![x].gseed = s2]
                ELSE /\ heap' = heap \o q
                     /\ LET p == [i \in 1..N |-> Len(heap) + i] IN
                        a' = [a EXCEPT ![x].gen = @ + 1, ![x].gseed = s2, ![x].pop = p,
                                       ![x].best = IF keepbest THEN @ ELSE p[Better(heap', p)]]
          /\ steps' = [steps EXCEPT ![x] = @ + 1] /\ UNCHANGED <<ex, copies>>
Finish(x) == /\ a[x].ph = "run" /\ a[x].gen = MaxGen
             /\ a' = [a EXCEPT ![x].ph = "done"] /\ ex' = [ex EXCEPT ![a[x].ex] = "shut"]
             /\ steps' = [steps EXCEPT ![x] = @ + 1] /\ UNCHANGED <<heap, copies>>
\* the copy's executor is open, whatever the original's was
Copy(x, y) ==
  /\ copies < MaxCopies /\ copies' = copies + 1
  /\ a[x].ph # "free" /\ a[y].ph = "free"
  /\ LET k == Len(heap)
         p == a[x].pop
         out == a[x].best # 0 /\ (Alias(x) = {} \/ Bug = "split_best")
         newp == IF Bug = "shallow" THEN p ELSE [i \in DOMAIN p |-> k + i]
         newb == IF a[x].best = 0 \/ Bug = "drop_best" THEN 0
                 ELSE IF Bug = "shallow" THEN a[x].best
                 ELSE IF out THEN k + Len(p) + 1 ELSE k + (CHOOSE i \in Alias(x) : TRUE)
     IN /\ heap' = IF Bug = "shallow" THEN heap ELSE heap \o [i \in DOMAIN p |-> heap[p[i]]] \o (IF out THEN <<heap[a[x].best]>> ELSE <<>>)
        /\ ex' = IF Bug = "share_executor" THEN ex ELSE Append(ex, "open")
        /\ a' = [a EXCEPT ![y] = [a[x] EXCEPT !.pop = newp, !.best = newb, !.ex = IF Bug = "share_executor" THEN @ ELSE Len(ex) + 1,
                                  !.gseed = IF Bug = "lose_gseed" THEN a[x].seed ELSE @]]
  /\ steps' = [steps EXCEPT ![y] = steps[x]]
Next == \E x \in Algs : Start(x) \/ Gen(x) \/ Finish(x) \/ \E y \in Algs : Copy(x, y)
Spec == Init /\ [][Next]_vars

\* whoever an algorithm was copied from and whatever happened to the others since: its state is that of an
\* undisturbed run of its seed
Faithful == \A x \in Algs : a[x].ph # "free" => View(x) = Traj(a[x].seed, steps[x])
Apart == \A x, y \in Algs : x # y => Refs(x) \cap Refs(y) = {}
Able == \A x \in Algs : a[x].ph \in {"new", "run"} => ex[a[x].ex] = "open"
SameShape == [][\A x, y \in Algs : (a[y].ph = "free" /\ a'[y].ph # "free" /\ steps'[y] = steps[x] /\ a[x].ph # "free"
                                    /\ Cardinality({z \in Algs : a[z].ph # "free"}) = 1) => (Alias(y)' = {}) = (Alias(x) = {})]_vars
=============================================================================
