------------------------------ MODULE EvalPool ------------------------------
(* Concurrent evaluation of a population: N individuals are submitted to W    *)
(* workers, evaluations start in queue order and finish in any order, any of  *)
(* them may fail.  The caller collects the results and hands each one to an   *)
(* individual; the first failure it meets is raised.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, W, Rounds, Bug, Emit
VARIABLES genome,    \* i -> current genome (individuals change between rounds)
          fit,       \* i -> fitness, 0 = unevaluated
          queue, running, done,   \* done: sequence of <<i, result>> in completion order
          failing,   \* set of individuals whose evaluation fails in this round
          counts,    \* i -> number of evaluations started in this round
          phase, raised, round, hist
vars == <<genome, fit, queue, running, done, failing, counts, phase, raised, round, hist>>

Inds == 1..N
Score(g) == g * 10
Failed == -1
Init == /\ genome = [i \in Inds |-> i] /\ fit = [i \in Inds |-> 0]
        /\ queue = <<>> /\ running = {} /\ done = <<>> /\ counts = [i \in Inds |-> 0]
        /\ failing = {} /\ phase = "idle" /\ raised = 0 /\ round = 0 /\ hist = <<>>

Begin == /\ phase = "idle" /\ round < Rounds /\ raised = 0
         /\ queue' = [i \in Inds |-> i] /\ running' = {} /\ done' = <<>> /\ counts' = [i \in Inds |-> 0]
         /\ \E F \in SUBSET Inds : failing' = F
         /\ genome' = IF round = 0 THEN genome ELSE [i \in Inds |-> genome[i] + N]
         /\ fit' = [i \in Inds |-> 0]
         /\ phase' = "busy" /\ round' = round + 1 /\ UNCHANGED raised
         /\ hist' = IF Emit THEN <<>> ELSE hist
Start == /\ phase = "busy" /\ queue # <<>> /\ Cardinality(running) < W
         /\ LET i == queue[1] IN
              /\ running' = running \cup {i} /\ counts' = [counts EXCEPT ![i] = @ + 1]
              /\ queue' = IF Bug = "requeue" /\ counts[i] = 0 /\ i = 1 THEN Append(Tail(queue), i) ELSE Tail(queue)
              /\ hist' = IF Emit THEN Append(hist, i) ELSE hist
         /\ UNCHANGED <<genome, fit, done, failing, phase, raised, round>>
Finish == /\ phase = "busy"
          /\ \E i \in running :
               /\ running' = running \ {i}
               /\ done' = Append(done, <<i, IF i \in failing THEN Failed ELSE Score(genome[i])>>)
               /\ hist' = IF Emit THEN Append(hist, -i) ELSE hist
          /\ UNCHANGED <<genome, fit, queue, failing, counts, phase, raised, round>>
Of(i) == CHOOSE k \in DOMAIN done : done[k][1] = i
Collect == /\ phase = "busy" /\ queue = <<>> /\ running = {}
           /\ LET res(i) == IF Bug = "completion_order" THEN done[i][2] ELSE done[Of(i)][2]
                  firstbad == {i \in Inds : res(i) = Failed}
                  m == IF firstbad = {} THEN 0 ELSE CHOOSE i \in firstbad : \A j \in firstbad : i <= j
              IN IF m = 0 \/ Bug = "swallow"
                 THEN /\ fit' = [i \in Inds |-> IF res(i) = Failed THEN 0 ELSE res(i)] /\ raised' = 0 /\ phase' = "idle"
                 ELSE /\ fit' = [i \in Inds |-> IF i < m THEN res(i) ELSE 0] /\ raised' = done[Of(m)][1] /\ phase' = "idle"
           /\ IF Emit THEN PrintT("CASE " \o ToJson([hist |-> hist, failing |-> failing, n |-> N, w |-> W])) ELSE TRUE
           /\ UNCHANGED <<genome, queue, running, done, failing, counts, round, hist>>
Next == Begin \/ Start \/ Finish \/ Collect
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(Finish) /\ WF_vars(Collect)

Settled == phase = "idle" /\ round > 0
OwnScore == Settled => \A i \in Inds : fit[i] \in {0, Score(genome[i])}
AllScored == Settled /\ raised = 0 => \A i \in Inds : fit[i] = Score(genome[i])
Once == Settled => \A i \in Inds : counts[i] = 1
Raises == Settled => (raised # 0) = (failing # {})
RaisesReal == Settled /\ raised # 0 => raised \in failing
Answers == (phase = "busy") ~> (phase = "idle")

(* what a recorded evaluation must satisfy, whatever the schedule:            *)
(* augmented: a weight on the size makes the score worse                      *)
Augmented(fits, w, sizes, hib) == [i \in DOMAIN fits |-> IF hib THEN fits[i] - w * sizes[i] ELSE fits[i] + w * sizes[i]]
(* fits/scores: the fitness found on, and the score due to, each individual   *)
NoBetter(b, fits, hib) == \A i \in DOMAIN fits : IF hib THEN fits[i] <= fits[b] ELSE fits[i] >= fits[b]
=============================================================================
