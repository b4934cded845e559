---------------------------- MODULE Termination ----------------------------
(* The termination checkers, and the loop that consults them.  The checkers  *)
(* are modelled as the small state machines they are (last value + counter), *)
(* and their answers are compared with what they are documented to mean.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

INF == 100000000
Abs(x) == IF x < 0 THEN -x ELSE x

\* documented meaning
ThrFires(best, opt, thr) == IF best >= INF \/ best <= -INF THEN thr >= INF ELSE Abs(best - opt) <= thr
\* the best has been the same for at least n consecutive checks after the one that set it
StagFires(hist, n) == /\ Len(hist) > n
                      /\ \A i \in (Len(hist) - n)..Len(hist) : hist[i] = hist[Len(hist)]
Finite(cs) == {c \in {cs[i] : i \in DOMAIN cs} : c < INF}
CrowdFires(cs, thr) == /\ Finite(cs) # {}
                       /\ LET m == CHOOSE x \in Finite(cs) : \A y \in Finite(cs) : y <= x
                          IN m # 0 /\ m < thr

\* best of a population by augmented fitness: the set of pure fitnesses it may report
BestPures(pop, hib) ==
  {pop[i].f : i \in {j \in DOMAIN pop : \A k \in DOMAIN pop :
      IF hib THEN pop[j].a >= pop[k].a ELSE pop[j].a <= pop[k].a}}

CONSTANTS Vals,     \* best values the population may have
          K,        \* stagnation length
          MaxGen,
          Opt, Thr, \* threshold checker
          Bug

VARIABLES gen, hist, cur, last, cnt, asked, stop, running
vars == <<gen, hist, cur, last, cnt, asked, stop, running>>

Init == gen = 0 /\ hist = <<>> /\ cur \in Vals /\ last = <<>> /\ cnt = 0 /\ asked = 0 /\ stop = FALSE /\ running = TRUE

\* one consultation of both checkers (in list order; the answers are combined)
StagStep(v) == IF last # <<>> /\ last[1] = v
               THEN /\ cnt' = cnt + 1 /\ UNCHANGED last
               ELSE /\ cnt' = 0 /\ last' = <<v>>
Consult ==
  /\ running /\ asked = gen
  /\ LET thr == ThrFires(cur, Opt, Thr) IN
     IF Bug = "short_circuit" /\ thr
     THEN /\ UNCHANGED <<last, cnt, hist>> /\ stop' = (stop \/ thr)
     ELSE /\ StagStep(cur)
          /\ hist' = Append(hist, cur)
          /\ stop' = (stop \/ thr \/ (last # <<>> /\ last[1] = cur /\ cnt + 1 >= IF Bug = "late" THEN K + 1 ELSE K))
  /\ asked' = asked + 1
  /\ UNCHANGED <<gen, cur, running>>

Advance == /\ running /\ asked = gen + 1 /\ ~stop /\ gen < MaxGen
           /\ gen' = gen + 1 /\ cur' \in Vals
           /\ UNCHANGED <<hist, last, cnt, asked, stop, running>>
Halt == /\ running /\ asked = gen + 1 /\ (stop \/ gen = MaxGen)
        /\ running' = FALSE /\ UNCHANGED <<gen, hist, cur, last, cnt, asked, stop>>
Next == Consult \/ Advance \/ Halt
Spec == Init /\ [][Next]_vars

\* the run stops exactly at the first generation whose history asks for it
StopsAtFirst ==
  asked = gen + 1 =>
    (stop <=> (ThrFires(cur, Opt, Thr) \/ StagFires(hist, K)))
NotEarlier == \A i \in 1..(Len(hist) - 1) : ~StagFires(SubSeq(hist, 1, i), K)
EveryoneAsked == Len(hist) = asked
HaltsOnlyForAReason == ~running => (stop \/ gen = MaxGen)
=============================================================================
