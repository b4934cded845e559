-------------------------------- MODULE NSGA2 --------------------------------
(* Pareto dominance, non-dominated fronts, crowding distance and survivor     *)
(* selection.  Declarative definitions, and the counting algorithm of the     *)
(* code as a transition system that must agree with them.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

AtLeast(x, y, hib) == IF hib THEN x >= y ELSE x <= y
Better(x, y, hib) == IF hib THEN x > y ELSE x < y
\* a, b: objective vectors; dir: direction of each objective
Dominates(a, b, dir) == /\ \A k \in DOMAIN a : AtLeast(a[k], b[k], dir[k])
                        /\ \E k \in DOMAIN a : Better(a[k], b[k], dir[k])

\* fronts of the points P[i], i \in S
NonDom(P, S, dir) == {i \in S : \A j \in S : ~Dominates(P[j], P[i], dir)}
RECURSIVE RankSets(_, _, _)
RankSets(P, S, dir) == IF S = {} THEN <<>> ELSE LET F == NonDom(P, S, dir) IN <<F>> \o RankSets(P, S \ F, dir)
Fronts(P, dir) == RankSets(P, DOMAIN P, dir)

INF == 100000000
L == 27720                       \* lcm(1..12): ranges up to 12 divide it
Mx(S) == CHOOSE x \in S : \A y \in S : y <= x
Mn(S) == CHOOSE x \in S : \A y \in S : y >= x
\* possible contributions of objective k to the crowding of i in front F (several when values tie);
\* scaled by L; a value shared by several individuals may lie at any place of its group
Contrib(P, F, k, i) ==
  LET V == {P[j][k] : j \in F}  lo == Mn(V)  hi == Mx(V)  v == P[i][k]
      m == Cardinality({j \in F : P[j][k] = v})
      below == {x \in V : x < v}  above == {x \in V : x > v}
      d == hi - lo
      prev == IF below = {} THEN v ELSE Mx(below)  next == IF above = {} THEN v ELSE Mn(above)
      gap(x, y) == IF d = 0 THEN 0 ELSE ((y - x) * L) \div d
  IN IF m = 1 THEN IF v = lo \/ v = hi THEN {INF} ELSE {gap(prev, next)}
     ELSE (IF v = lo THEN {INF} ELSE {gap(prev, v)})        \* first of its group
          \cup (IF v = hi THEN {INF} ELSE {gap(v, next)})   \* last
          \cup (IF m > 2 THEN {0} ELSE {})                  \* in the middle
RECURSIVE Sums(_, _, _, _)
Plus(a, b) == IF a >= INF \/ b >= INF THEN INF ELSE a + b
Sums(P, F, k, i) == IF k = 0 THEN {0}
                    ELSE {Plus(x, y) : x \in Sums(P, F, k - 1, i), y \in Contrib(P, F, k, i)}
Crowdings(P, F, i) == Sums(P, F, Len(P[i]), i)
\* cr: recorded crowding of the members of F
CrowdingOk(P, F, cr) ==
  /\ \A i \in F : cr[i] \in Crowdings(P, F, i)
  \* the two ends of every objective's order
  /\ \A k \in 1..Len(P[CHOOSE i \in F : TRUE]) :
       LET V == {P[j][k] : j \in F} IN
       /\ \E i \in F : P[i][k] = Mn(V) /\ cr[i] = INF
       /\ \E i \in F : P[i][k] = Mx(V) /\ cr[i] = INF
  /\ Cardinality({i \in F : cr[i] = INF}) <= 2 * Len(P[CHOOSE i \in F : TRUE])

\* chosen: set of the N survivors; rk, cr: their recorded rank and crowding
SurvivorsOk(P, dir, N, chosen) ==
  LET fr == Fronts(P, dir)
      RECURSIVE Take(_, _)
      \* whole fronts while they fit
      Take(f, left) == IF left = 0 \/ f > Len(fr) THEN chosen \cap (UNION {fr[g] : g \in f..Len(fr)}) = {}
                       ELSE IF Cardinality(fr[f]) <= left THEN fr[f] \subseteq chosen /\ Take(f + 1, left - Cardinality(fr[f]))
                       ELSE /\ Cardinality(chosen \cap fr[f]) = left
                            /\ chosen \cap (UNION {fr[g] : g \in (f + 1)..Len(fr)}) = {}
  IN Cardinality(chosen) = N /\ Take(1, N)
\* in the front that did not fit, nobody chosen is less crowded... than anybody discarded
CrowdedOk(P, dir, chosen, cr) ==
  LET fr == Fronts(P, dir) IN
  \A f \in DOMAIN fr : \A c \in fr[f] \cap chosen : \A d \in fr[f] \ chosen : cr[c] >= Mn(Crowdings(P, fr[f], d))
RankOf(fr, i) == CHOOSE f \in DOMAIN fr : i \in fr[f]

\* crowded comparison of ranked individuals
CrowdedBetter(r1, c1, r2, c2) == r1 < r2 \/ (r1 = r2 /\ c1 > c2)

(***************************************************************************)
(* The code's algorithm: domination lists and counters, fronts peeled off.  *)
CONSTANTS Vals, K, M, N, Dir, Bug
VARIABLES P, cnt, doms, src, dest, rank, f, pc
vars == <<P, cnt, doms, src, dest, rank, f, pc>>
Points == [1..K -> Vals]
Dom(a, b) == IF Bug = "strict_all" THEN \A k \in DOMAIN a : Better(a[k], b[k], Dir[k])
             ELSE IF Bug = "weak" THEN \A k \in DOMAIN a : AtLeast(a[k], b[k], Dir[k])
             ELSE IF Bug = "first_dir" THEN Dominates(a, b, [k \in DOMAIN a |-> Dir[1]])
             ELSE Dominates(a, b, Dir)
\* points are taken in lexicographic order: the order of the population does not matter
RECURSIVE Code(_, _)
Code(v, k) == IF k = 0 THEN 0 ELSE 10 * Code(v, k - 1) + v[k]
Sorted(p) == \A i \in 1..(M - 1) : Code(p[i], K) <= Code(p[i + 1], K)
Init == /\ P \in {p \in [1..M -> Points] : Sorted(p)}
        /\ doms = [i \in 1..M |-> {j \in 1..M : j # i /\ Dom(P[i], P[j])}]
        /\ cnt = [i \in 1..M |-> Cardinality({j \in 1..M : j # i /\ Dom(P[j], P[i])})]
        /\ src = 1..M /\ dest = {} /\ rank = [i \in 1..M |-> 0] /\ f = 1 /\ pc = "go"
Front == {i \in src : cnt[i] = 0}
Next == /\ pc = "go"
        /\ IF Cardinality(dest) >= N \/ Front = {} THEN pc' = "done" /\ UNCHANGED <<cnt, src, dest, rank, f>>
           ELSE \E T \in SUBSET Front :
                  \* which members of a front that does not fit survive is decided by crowding; any here
                  /\ Cardinality(T) = (IF Cardinality(Front) + Cardinality(dest) > N THEN N - Cardinality(dest) ELSE Cardinality(Front))
                  /\ rank' = [i \in 1..M |-> IF i \in Front THEN f ELSE rank[i]]
                  /\ dest' = dest \cup T
                  /\ src' = src \ T
                  /\ cnt' = [i \in 1..M |-> cnt[i] - (IF Bug = "once" THEN (IF \E j \in T : i \in doms[j] THEN 1 ELSE 0)
                                                      ELSE Cardinality({j \in T : i \in doms[j]}))]
                  /\ f' = f + 1 /\ pc' = pc
        /\ UNCHANGED <<P, doms>>
Spec == Init /\ [][Next]_vars

Survivors == pc = "done" => SurvivorsOk(P, Dir, N, dest)
RankTrue == LET fr == Fronts(P, Dir) IN \A i \in 1..M : rank[i] # 0 => i \in fr[rank[i]]
NoBetterDiscarded == pc = "done" => \A i \in dest, j \in (1..M) \ dest : ~Dominates(P[j], P[i], Dir)
\* dominance is a strict partial order
Order == f = 1 => \A i, j, k \in 1..M : /\ ~Dominates(P[i], P[i], Dir)
                               /\ (Dominates(P[i], P[j], Dir) => ~Dominates(P[j], P[i], Dir))
                               /\ (Dominates(P[i], P[j], Dir) /\ Dominates(P[j], P[k], Dir) => Dominates(P[i], P[k], Dir))
=============================================================================
