---- MODULE TraceDefaults ----
(* Instances of real components, made with their options left out or given   *)
(* explicitly, and what comes out of using them, each with the same draws.   *)
EXTENDS TraceBase
\* the defaults of all options, as the signatures show them
Prob == [probability |-> "1.0"]
One == Prob @@ [arity |-> "1"]
Gauss == One @@ [mu |-> "0.0", sigma |-> "1.0", attempts |-> "5"]
Creator == [length |-> "1", gene_creator |-> "none", bounds |-> "0..1", update_parents |-> "no"]
TreeCreator == [erc_range |-> "none", bloat_weight |-> "0.0", init_depth |-> "2..4"]
NoRoot == [root_type |-> "none"]
Fit == [higher_is_better |-> "no", cache |-> "no", is_relative_fitness |-> "no"]
Algo == [statistics |-> "none", breeder |-> "own", population_evaluator |-> "own", events |-> "none", event_names |-> "none", termination_checker |-> "none",
         max_generation |-> "500", executor |-> "thread", max_workers |-> "none", random_generator |-> "own", generation_seed |-> "none", generation_num |-> "0"]
Table ==
  [VectorKPointsCrossover |-> Prob @@ [arity |-> "2", k |-> "1"],
   VectorNPointMutation |-> One @@ [n |-> "1", cell_selector |-> "none", mut_val_getter |-> "none", success_checker |-> "none", attempts |-> "5"],
   FloatVectorUniformOnePointMutation |-> One,
   FloatVectorUniformNPointMutation |-> One @@ [n |-> "1"],
   FloatVectorGaussOnePointMutation |-> Gauss,
   FloatVectorGaussNPointMutation |-> Gauss @@ [n |-> "1"],
   IntVectorOnePointMutation |-> [probability |-> "0.5", arity |-> "1", probability_for_each |-> "0.1"],
   IntVectorNPointMutation |-> One @@ [n |-> "1"],
   BitStringVectorFlipMutation |-> One,
   BitStringVectorNFlipMutation |-> One @@ [n |-> "1", probability_for_each |-> "0.2"],
   ERCMutation |-> One @@ [mu |-> "0", sigma |-> "1"],
   SubtreeMutation |-> One @@ [init_depth |-> "(2, 4)", attempts |-> "1"],
   SubtreeCrossover |-> Prob @@ [arity |-> "2", attempts |-> "1"],
   IdentityTransformation |-> Prob,
   GeneticOperator |-> Prob @@ [arity |-> "0"],
   FailableOperator |-> [probability |-> "0.05", arity |-> "0", attempts |-> "1"],
   TournamentSelection |-> [higher_is_better |-> "no", replace |-> "yes"],
   FitnessProportionateSelection |-> [higher_is_better |-> "no"],
   ElitismSelection |-> [higher_is_better |-> "no"],
   GABitStringVectorCreator |-> Creator,
   GAIntVectorCreator |-> Creator,
   GAFloatVectorCreator |-> Creator,
   GAVectorCreator |-> Creator @@ [vector_type |-> "bits", fitness_type |-> "simple"],
   GrowCreator |-> TreeCreator @@ [p_prune |-> "0.5", update_parents |-> "no"] @@ NoRoot,
   GrowCreatorTyped |-> TreeCreator @@ [p_prune |-> "0.5", update_parents |-> "no"],
   FullCreator |-> TreeCreator @@ [update_parents |-> "no"] @@ NoRoot,
   FullCreatorTyped |-> TreeCreator @@ [update_parents |-> "no"],
   HalfCreator |-> TreeCreator @@ [grow_creator |-> "none", full_creator |-> "none"] @@ NoRoot,
   HalfCreatorTyped |-> TreeCreator @@ [grow_creator |-> "none", full_creator |-> "none"],
   SimpleFitness |-> Fit @@ [fitness |-> "none"],
   GPFitness |-> Fit @@ [fitness |-> "none", bloat_weight |-> "0.1"],
   NSGA2Fitness |-> Fit @@ [fitness |-> "none"],
   BitStringVector |-> [bounds |-> "0..1", vector |-> "none", update_parents |-> "no"],
   IntVector |-> [bounds |-> "int32", vector |-> "none", update_parents |-> "no"],
   FloatVector |-> [bounds |-> "0..1", vector |-> "none", update_parents |-> "no"],
   Tree |-> [fitness |-> "own", tree |-> "none", erc_range |-> "none", root_type |-> "none", update_parents |-> "no"],
   ThresholdFromTargetTerminationChecker |-> [optimal |-> "0.0", threshold |-> "0.0", higher_is_better |-> "no"],
   BestFitnessStagnationTerminationChecker |-> [stagnation_generations_to_terminate |-> "100"],
   CrowdingTerminationChecker |-> [threshold |-> "0.1"],
   ClassificationEvaluator |-> [metric |-> "accuracy", n_classes |-> "2", clf_method |-> "sigmoid"],
   RegressionEvaluator |-> [metric |-> "mae"],
   SimplePopulationEvaluator |-> [executor_method |-> "map"],
   Subpopulation |-> [pcr |-> "even", selection_methods |-> "tournament10", elitism_rate |-> "0.0", population_size |-> "200", individuals |-> "none", higher_is_better |-> "no"],
   SimpleEvolution |-> Algo,
   NSGA2Evolution |-> Algo @@ [NSGA2FrontSorting |-> "own"],
   Algorithm |-> [events |-> "none", event_names |-> "none", termination_checker |-> "none", max_generation |-> "100", random_generator |-> "own",
                  generation_seed |-> "none", max_workers |-> "none", generation_num |-> "0"]]

D == INSTANCE Defaults WITH Table <- Table, Others <- Table, Objects <- {}, MaxInst <- 0, MaxUse <- 0, Bug <- "none", inst <- 0, obj <- 0, log <- 0
VARIABLES l, st     \* st: inst: what the instances were made with and have done; log: entries of Defaults' log (n: what the instance did before)

GivenOf(e) == [o \in {p[1] : p \in Range(e.given)} |-> (CHOOSE p \in Range(e.given) : p[1] = o)[2]]
Known(e) == e.k \in DOMAIN Table /\ DOMAIN GivenOf(e) \subseteq DOMAIN Table[e.k]
Entry(s, e) == LET x == s.inst[e.i] IN [k |-> x.k, eff |-> x.eff, n |-> Append(x.did, e.act), out |-> e.out]
AgreeNew(log, m) == \A n \in DOMAIN log : (log[n].k = m.k /\ log[n].eff = m.eff /\ log[n].n = m.n) => log[n].out = m.out
Check(s, e) ==
  CASE e.op = "Made" -> C("X.unknown", Known(e))
    [] e.op = "Did" -> C("C35.same", AgreeNew(s.log, Entry(s, e)))
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
Begin == [inst |-> <<>>, log |-> <<>>]
Step(s, e) ==
  CASE e.op = "Made" -> [s EXCEPT !.inst = Append(@, [k |-> e.k, eff |-> D!Effective(Table[e.k], GivenOf(e)), did |-> <<>>])]
    [] e.op = "Did" -> LET m == Entry(s, e) IN
                       [inst |-> [s.inst EXCEPT ![e.i].did = m.n], log |-> IF \E n \in DOMAIN s.log : s.log[n] = m THEN s.log ELSE Append(s.log, m)]
    [] OTHER -> s
TInit == l = 1 /\ st = Begin
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                s == IF e.first THEN Begin ELSE st IN
              /\ Report(l, Check(s, e))
              /\ st' = Step(s, e)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
