------------------------------- MODULE EvoRun -------------------------------
(* One single-objective evolutionary run (Algorithm.evolve + SimpleEvolution *)
(* + SimpleBreeder + SimplePopulationEvaluator), as a state machine over a   *)
(* heap of individuals.  The heap makes aliasing visible: an individual is   *)
(* an address, and everything that holds it sees what happens to it.         *)
(*                                                                           *)
(* The operators in the first half are also the judge of recorded runs of    *)
(* the real code (TraceEvoRun).                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == 100000000
NONE == -999999999

\* augmented fitness: pure fitness worsened by the bloat weight times the size
Aug(f, w, size, hib) == IF f >= INF \/ f <= -INF THEN f
                        ELSE IF hib THEN f - w * size ELSE f + w * size

Better(a, b, hib) == IF hib THEN a > b ELSE a < b
AtLeast(a, b, hib) == ~Better(b, a, hib)

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
BestOf(S, hib) == IF hib THEN MaxOf(S) ELSE MinOf(S)

\* E, a set of positions of the sequence aug, is a choice of the |E| best ones
IsBestSet(E, aug, hib) ==
  \A p \in E : \A q \in DOMAIN aug \ E : ~Better(aug[q], aug[p], hib)

\* the n-th best value
Rank(aug, p, hib) == Cardinality({q \in DOMAIN aug : Better(aug[q], aug[p], hib)})

\* ----- run protocol: phases and the events that lead from one to the next
\* (checks and publications of one generation may come in any order)
ProtoNext(ph, ev) ==
  CASE ph = "start"    /\ ev = "create"   -> "created"
    [] ph = "start"    /\ ev = "evalB"    -> "evaluating0"   \* individuals were supplied
    [] ph = "created"  /\ ev = "evalB"    -> "evaluating0"
    [] ph = "evaluating0" /\ ev = "evalE" -> "evaluated0"
    [] ph = "evaluated0"  /\ ev = "init"  -> "gen0"
    [] ph = "gen0"     /\ ev = "breedB"   -> "breeding"
    [] ph = "gen0"     /\ ev = "aftergen" -> "closed"        \* termination before the first generation
    [] ph = "gen0"     /\ ev = "finished" -> "finished"      \* max_generation = 0
    [] ph = "breeding" /\ ev = "breedE"   -> "bred"
    [] ph = "bred"     /\ ev = "evalB"    -> "evaluating"
    [] ph = "evaluating" /\ ev = "evalE"  -> "evaluated"
    [] ph = "evaluated" /\ ev = "aftergen" -> "closed"
    [] ph = "closed"   /\ ev = "breedB"   -> "breeding"
    [] ph = "closed"   /\ ev = "finished" -> "finished"
    [] OTHER -> "BAD"

(***************************************************************************)
(* The model                                                               *)
(***************************************************************************)
CONSTANTS N,        \* population size
          K,        \* genomes are 1..K
          Score,    \* score of each genome
          HiB,      \* higher is better
          NElite,   \* number of elite slots
          MaxGen,
          Bug       \* "none" or a design error to plant

VARIABLES heap,     \* address -> [id, g, f, gen, cf, ops]
          pop,      \* sequence of addresses
          off,      \* selected individuals under operation
          eli,      \* elite copies
          k,        \* next offspring to operate on
          gen, phase,
          best,     \* address of best of run
          seen,     \* scores of everything evaluated so far
          prev,     \* the generation before: sequence of [id, g, f]
          nid,      \* next id
          fin       \* recorded final generation

vars == <<heap, pop, off, eli, k, gen, phase, best, seen, prev, nid, fin>>

Addr == DOMAIN heap
Fresh(n) == [i \in 1..n |-> Cardinality(Addr) + i]
AugOf(h, a) == h[a].f

Init == /\ heap = <<>> /\ pop = <<>> /\ off = <<>> /\ eli = <<>> /\ k = 0
        /\ gen = 0 /\ phase = "start" /\ best = 0 /\ seen = {} /\ prev = <<>> /\ nid = 1 /\ fin = 0

Create == /\ phase = "start"
          /\ \E gs \in [1..N -> 1..K] :
               heap' = [a \in 1..N |-> [id |-> a, g |-> gs[a], f |-> NONE, gen |-> 0, cf |-> 0, ops |-> 0]]
          /\ pop' = [i \in 1..N |-> i] /\ nid' = N + 1
          /\ phase' = ProtoNext(phase, "create")
          /\ UNCHANGED <<off, eli, k, gen, best, seen, prev, fin>>

\* evaluation of the whole population: begin
EvalB == /\ phase \in {"created", "bred"}
         /\ phase' = ProtoNext(phase, "evalB")
         /\ UNCHANGED <<heap, pop, off, eli, k, gen, best, seen, prev, nid, fin>>

Evaluated == [a \in Addr |-> IF \E i \in DOMAIN pop : pop[i] = a
                             THEN [heap[a] EXCEPT !.f = Score[heap[a].g]] ELSE heap[a]]

EvalE == /\ phase \in {"evaluating0", "evaluating"}
         /\ heap' = Evaluated
         /\ seen' = seen \cup {Evaluated[pop[i]].f : i \in DOMAIN pop}
         /\ \E i \in DOMAIN pop :
              /\ \A j \in DOMAIN pop : AtLeast(Evaluated[pop[i]].f, Evaluated[pop[j]].f, HiB)
              /\ best' = IF best = 0 \/ (Better(Evaluated[pop[i]].f, Evaluated[best].f, HiB) /\ Bug # "best_of_first")
                         THEN pop[i]
                         ELSE IF Bug = "best_of_gen" THEN pop[i] ELSE best
         /\ phase' = ProtoNext(phase, "evalE")
         /\ UNCHANGED <<pop, off, eli, k, gen, prev, nid, fin>>

PubInit == /\ phase = "evaluated0" /\ phase' = ProtoNext(phase, "init")
           /\ UNCHANGED <<heap, pop, off, eli, k, gen, best, seen, prev, nid, fin>>

\* a checker asks for termination of the initial population, or not
StopAtZero == /\ phase = "gen0" /\ phase' = ProtoNext(phase, "aftergen")
              /\ fin' = 0
              /\ UNCHANGED <<heap, pop, off, eli, k, gen, best, seen, prev, nid>>
NoGenerations == /\ phase = "gen0" /\ MaxGen = 0 /\ phase' = ProtoNext(phase, "finished")
                 /\ UNCHANGED <<heap, pop, off, eli, k, gen, best, seen, prev, nid, fin>>

\* a new generation: elites and selection are clones of current individuals
CloneOf(a, id) == [heap[a] EXCEPT !.id = id, !.cf = heap[a].id, !.f = NONE, !.ops = 0]

BreedB == /\ phase = "gen0" \/ (phase = "closed" /\ fin = gen /\ gen > 0)
          /\ gen < MaxGen
          /\ gen' = gen + 1
          /\ LET h1 == [a \in Addr |-> IF \E i \in DOMAIN pop : pop[i] = a THEN [heap[a] EXCEPT !.gen = gen + 1] ELSE heap[a]]
                 aug == [i \in 1..N |-> heap[pop[i]].f]
             IN \E E \in {X \in SUBSET (1..N) : Cardinality(X) = NElite} :
                \E ch \in [1..N -> 1..N] :
                  /\ IsBestSet(E, aug, HiB)
                  /\ LET base == Cardinality(Addr)
                         es == CHOOSE s \in [1..NElite -> E] : {s[i] : i \in 1..NElite} = E
                         ea == [i \in 1..NElite |-> base + i]
                         oa == [i \in 1..N |-> IF Bug = "alias" THEN pop[ch[i]] ELSE base + NElite + i]
                         sz == base + NElite + (IF Bug = "alias" THEN 0 ELSE N)
                     IN /\ heap' = [a \in 1..sz |->
                              IF a \in Addr THEN h1[a]
                              ELSE IF a <= base + NElite
                                   THEN [CloneOf(pop[es[a - base]], nid + a - base - 1) EXCEPT !.gen = gen + 1]
                                   ELSE [CloneOf(pop[ch[a - base - NElite]], nid + a - base - 1) EXCEPT !.gen = gen + 1]]
                        /\ eli' = ea /\ off' = oa
                        /\ nid' = nid + sz - base
          /\ prev' = [i \in 1..N |-> [id |-> heap[pop[i]].id, g |-> heap[pop[i]].g, f |-> heap[pop[i]].f]]
          /\ k' = 1
          /\ phase' = ProtoNext(phase, "breedB")
          /\ UNCHANGED <<pop, best, seen, fin>>

\* the operator sequence: each offspring in turn is changed or skipped
Targets == IF Bug = "elite_operated" THEN eli \o off ELSE off
Operate == /\ phase = "breeding" /\ k <= Len(Targets)
           /\ \/ UNCHANGED heap                                       \* skipped
              \/ \E g \in 1..K : heap' = [heap EXCEPT ![Targets[k]].g = g, ![Targets[k]].f = NONE, ![Targets[k]].ops = 1]
           /\ k' = k + 1
           /\ UNCHANGED <<pop, off, eli, gen, phase, best, seen, prev, nid, fin>>

BreedE == /\ phase = "breeding" /\ k > Len(Targets)
          /\ pop' = IF Bug = "no_truncate" THEN eli \o off
                    ELSE IF Bug = "elites_last" THEN SubSeq(off \o eli, 1, N)
                    ELSE eli \o SubSeq(off, 1, N - NElite)
          /\ phase' = ProtoNext(phase, "breedE")
          /\ UNCHANGED <<heap, off, eli, k, gen, best, seen, prev, nid, fin>>

AfterGen == /\ phase = "evaluated" /\ phase' = ProtoNext(phase, "aftergen")
            /\ fin' = gen
            /\ UNCHANGED <<heap, pop, off, eli, k, gen, best, seen, prev, nid>>

Finish == /\ phase = "closed"      \* a checker fired, or all generations are done
          /\ phase' = ProtoNext(phase, "finished")
          /\ UNCHANGED <<heap, pop, off, eli, k, gen, best, seen, prev, nid, fin>>

Next == Create \/ EvalB \/ EvalE \/ PubInit \/ StopAtZero \/ NoGenerations \/ BreedB \/ Operate \/ BreedE
        \/ AfterGen \/ Finish
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
Quiet == phase \in {"gen0", "evaluated", "closed", "finished"}

C01_Best == Quiet => /\ \A s \in seen : AtLeast(heap[best].f, s, HiB)
                     /\ heap[best].f = Score[heap[best].g]

C02_Elites == (Quiet /\ gen > 0) =>
   \E E \in {X \in SUBSET (1..N) : Cardinality(X) = NElite} :
      /\ \A p \in E : heap[pop[p]].ops = 0
      /\ LET src(p) == CHOOSE q \in DOMAIN prev : prev[q].id = heap[pop[p]].cf
             S == {src(p) : p \in E}
         IN /\ Cardinality(S) = NElite
            /\ \A p \in E : heap[pop[p]].g = prev[src(p)].g
            /\ IsBestSet(S, [q \in DOMAIN prev |-> prev[q].f], HiB)

C02_NeverWorse == (Quiet /\ gen > 0 /\ NElite > 0) =>
   AtLeast(BestOf({heap[pop[i]].f : i \in DOMAIN pop}, HiB), BestOf({prev[i].f : i \in DOMAIN prev}, HiB), HiB)

C03_Accounting == Quiet =>
   /\ Len(pop) = N
   /\ \A i, j \in DOMAIN pop : i # j => pop[i] # pop[j]
   /\ \A i \in DOMAIN pop : heap[pop[i]].f = Score[heap[pop[i]].g] /\ heap[pop[i]].gen = gen
   /\ \A a, b \in Addr : a # b => heap[a].id # heap[b].id

C06_Protocol == phase # "BAD" /\ gen <= MaxGen /\ (phase = "finished" => fin = gen)

C24_Provenance == (Quiet /\ gen > 0) =>
   \A i \in DOMAIN pop : /\ \E q \in DOMAIN prev : prev[q].id = heap[pop[i]].cf
                         /\ (heap[pop[i]].ops = 0 =>
                               \E q \in DOMAIN prev : prev[q].id = heap[pop[i]].cf /\ prev[q].g = heap[pop[i]].g)
=============================================================================
