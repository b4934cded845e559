------------------------------- MODULE Repro -------------------------------
(* Self-composition: two runs of one configuration with the same seed, in     *)
(* environments that differ (ambient generator state, callbacks that draw     *)
(* numbers, evaluation order, what ran before).  Populations must agree       *)
(* generation by generation.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Seeds, Mod, N, MaxGen, Bug
Runs == {1, 2}
VARIABLES seed,      \* the random seed (same for both runs)
          gseed,     \* the generation seed
          rng,       \* run -> state of the global generator
          pop,       \* run -> population (sequence of genomes)
          fit,       \* run -> fitness by position
          todo,      \* run -> positions whose evaluation is outstanding
          ph, gen,   \* run -> phase, generation
          hist,      \* run -> sequence of populations and fitnesses
          noise, global
vars == <<seed, gseed, rng, pop, fit, todo, ph, gen, hist, noise, global>>

NextRng(x) == (5 * x + 3) % Mod
\* the i-th number drawn from state x
RECURSIVE Draws(_, _)
Draws(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Draws(NextRng(x), n - 1)
RECURSIVE Adv(_, _)
Adv(x, n) == IF n = 0 THEN x ELSE Adv(NextRng(x), n - 1)
Score(g) == (3 * g + 1) % Mod

Init == /\ seed \in Seeds /\ gseed \in Seeds
        /\ rng \in [Runs -> 0..Mod - 1]                        \* arbitrary ambient state
        /\ pop = [r \in Runs |-> <<>>] /\ fit = [r \in Runs |-> <<>>] /\ todo = [r \in Runs |-> {}]
        /\ ph = [r \in Runs |-> "new"] /\ gen = [r \in Runs |-> 0] /\ hist = [r \in Runs |-> <<>>]
        /\ noise = 0 /\ global = 0

Create(r) == /\ ph[r] = "new"
             /\ LET s == IF Bug = "seed_late" THEN rng[r] ELSE seed IN
                  /\ pop' = [pop EXCEPT ![r] = Draws(s, N)]
                  /\ rng' = [rng EXCEPT ![r] = Adv(IF Bug = "seed_late" THEN seed ELSE s, N)]
             /\ ph' = [ph EXCEPT ![r] = "eval"] /\ todo' = [todo EXCEPT ![r] = 1..N]
             /\ fit' = [fit EXCEPT ![r] = [i \in 1..N |-> 0]]
             /\ global' = global + 1
             /\ UNCHANGED <<seed, gseed, gen, hist, noise>>
\* evaluations finish in any order
Evaluate(r) == /\ ph[r] = "eval" /\ todo[r] # {}
               /\ \E i \in todo[r] :
                    /\ todo' = [todo EXCEPT ![r] = @ \ {i}]
                    /\ fit' = [fit EXCEPT ![r][i] = IF Bug = "eval_draws" THEN (Score(pop[r][i]) + rng[r]) % Mod ELSE Score(pop[r][i])]
                    /\ rng' = [rng EXCEPT ![r] = NextRng(@)]    \* an evaluator may consume numbers
               /\ UNCHANGED <<seed, gseed, pop, ph, gen, hist, noise, global>>
Close(r) == /\ ph[r] = "eval" /\ todo[r] = {}
            /\ hist' = [hist EXCEPT ![r] = Append(@, <<pop[r], fit[r]>>)]
            /\ ph' = [ph EXCEPT ![r] = "closed"]
            /\ UNCHANGED <<seed, gseed, rng, pop, fit, todo, gen, noise, global>>
\* the environment draws numbers between generations
Ambient(r) == /\ ph[r] \in {"new", "closed"} /\ noise < 2
              /\ rng' = [rng EXCEPT ![r] = (@ + 1) % Mod] /\ noise' = noise + 1
              /\ UNCHANGED <<seed, gseed, pop, fit, todo, ph, gen, hist, global>>
Breed(r) == /\ ph[r] = "closed" /\ gen[r] < MaxGen
            /\ gen' = [gen EXCEPT ![r] = @ + 1]
            /\ LET s == IF Bug = "no_reseed" THEN rng[r] ELSE (gseed + gen'[r]) % Mod
                   ds == Draws(s, N)
                   off == IF Bug = "global_count" THEN global ELSE 0
               IN /\ pop' = [pop EXCEPT ![r] = [i \in 1..N |-> (pop[r][1 + (ds[i] % N)] + ds[i] + fit[r][i] + off) % Mod]]
                  /\ rng' = [rng EXCEPT ![r] = Adv(s, N)]
            /\ ph' = [ph EXCEPT ![r] = "eval"] /\ todo' = [todo EXCEPT ![r] = 1..N]
            /\ global' = IF Bug = "global_count" THEN global + 1 ELSE global
            /\ UNCHANGED <<seed, gseed, fit, hist, noise>>
Next == \E r \in Runs : Create(r) \/ Evaluate(r) \/ Close(r) \/ Ambient(r) \/ Breed(r)
Spec == Init /\ [][Next]_vars

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Agree(h1, h2) == Prefix(h1, h2) \/ Prefix(h2, h1)
Reproducible == Agree(hist[1], hist[2])
=============================================================================
