"""Writes /verif/properties.jsonl (kept here because the text is easier to edit as Python)."""
import json, os
E = "eckity/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[E + f for f in files],
            state=[dict(name=n, meaning=m, where=E + w) for n, m, w in state],
            mechanism=[dict(name=n, where=E + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "The reported best individual is the best one ever evaluated",
  "In a single-objective run, when every generation ends and when the run ends, the best-of-run individual is at least as good (augmented fitness, in the configured direction) as every individual evaluated so far in that run, and its genome is still the genome that earned its fitness. The reported best and worst of a generation are members of that generation's population and its extremes. Executing the algorithm after the run gives exactly what executing that best-of-run individual's genome gives.",
  ["histories", "configurations", "inputs"], "every generation of every run: fitness landscapes with ties, negative and infinite values, both directions, bloat weights, with and without elitism, for vectors and trees",
  "The tests evolve two or three fixed problems and look at the final answer only; none compares the reported best with the history of everything that was evaluated.",
  ["algorithms/simple_evolution.py", "evaluators/simple_population_evaluator.py", "subpopulation.py", "fitness/simple_fitness.py"],
  [("best_of_run_ update after each evaluation", "algorithms/simple_evolution.py: generation_iteration"), ("initial best", "algorithms/algorithm.py: initialize")],
  ["after_generation / evolution_finished events", "Algorithm.execute"],
  [("best_of_run_", "best individual so far", "algorithms/algorithm.py")])

p("C02", "Elites are carried over unmodified and the best never regresses",
  "In a single-objective run every generation after the first contains unmodified copies of the round(elitism_rate * population_size) best individuals of the generation before it (best by augmented fitness in the subpopulation's direction), and no genetic operator is applied to those copies. All other slots are filled by the selection method followed by the operator sequence. Hence with at least one elite and a deterministic evaluator the best fitness in the population never gets worse from one generation to the next.",
  ["histories", "configurations"], "every generation of every run, all elitism rates from 0 to 1, population sizes, operator sequences and arities, both directions, ties",
  "test_elitism calls the elitism selection alone; no test follows elites through breeding.",
  ["breeders/simple_breeder.py", "genetic_operators/selections/elitism_selection.py", "subpopulation.py"],
  [("elites copied, offspring fill the rest", "breeders/simple_breeder.py: apply_breed")],
  ["population before and after breeding"],
  [("n_elite", "number of elite slots", "subpopulation.py")])

p("C03", "Population accounting: size, identity and evaluation are conserved",
  "After every generation of a single- or multi-objective run the population has exactly as many individuals as it was created with; they are pairwise distinct objects that share no genome or fitness storage with each other or with the best-of-run individual kept from an earlier generation. Every individual ever created has an id of its own, and after generation g each individual in the population carries g as its generation number. Every individual of the population is then evaluated, with exactly the fitness its evaluator gives its current genome.",
  ["histories", "configurations"], "every generation of every run over population sizes, arities, elitism rates, operator sequences and probabilities, vectors and trees, simple and NSGA-II evolution",
  "Tests check the final size of a few runs; aliasing, id reuse and stale fitness need whole histories.",
  ["breeders/simple_breeder.py", "multi_objective_evolution/nsga2_breeder.py", "multi_objective_evolution/nsga2_front_sorting.py", "individual.py", "algorithms/algorithm.py"],
  [("clone on selection", "genetic_operators/selections/"), ("update_id", "individual.py"), ("update_gen", "algorithms/algorithm.py")],
  ["population at after_generation events"])

p("C04", "Parallel evaluation gives each individual its own score, in any schedule",
  "Evaluating a population gives every individual exactly the score the evaluator computes for that individual's own genome, whatever the executor kind (threads or processes), the executor method (map or submit), the number of workers and the order in which evaluations start and finish; each individual is evaluated exactly once per population evaluation. The individual returned is a member of the population that no other member beats. An exception raised by the evaluator reaches the caller.",
  ["schedules", "configurations", "fault_sequences"], "every completion order of the evaluations, 1..N workers, thread/process executors, map/submit, every position at which an evaluation fails",
  "The tests use instantaneous evaluators, so completion order equals submission order, and never let an evaluation fail.",
  ["evaluators/simple_population_evaluator.py", "evaluators/population_evaluator.py", "algorithms/algorithm.py"],
  [("results zipped with the individuals in submission order", "evaluators/simple_population_evaluator.py: _evaluate")],
  ["fitness of every individual after evaluation", "return value of the population evaluator"])

p("C05", "A run is a function of its seed and configuration",
  "Two runs of the same configuration with the same random seed produce the same populations (genomes, order and fitness) in every generation and the same best individual, independent of the state of the global random generators beforehand, of earlier runs in the process, of executor kind, worker count and evaluation timing, and of hash randomisation; this holds for single- and multi-objective runs. The seed is handed to the configured random generator before the initial population is created, and generation g is re-seeded, before it is bred, with (s + g) mod 2^32, where s is the generation seed and defaults to the random seed.",
  ["histories", "schedules", "configurations"], "all seeds including 0 and 2^32-1, all supported configurations, all ambient random states, schedules and hash seeds",
  "Relational: needs pairs of runs under different environments; one test compares two runs of one configuration.",
  ["algorithms/algorithm.py", "random/rng.py", "multi_objective_evolution/nsga2_front_sorting.py", "evaluators/simple_population_evaluator.py"],
  [("set_random_seed / set_generation_seed / next_seed", "algorithms/algorithm.py"), ("seeding random and numpy", "random/rng.py: set_seed")],
  ["seeds received by the random generator", "population after each generation"])

p("C06", "Run protocol: generations, events and final state follow one order",
  "A run creates and evaluates the initial population, then publishes `init` once; then for generations 1, 2, ... in order it breeds the population exactly once, evaluates it exactly once and publishes `after_generation` exactly once with that generation's number and population; finally it publishes `evolution_finished` exactly once, last. At most max_generation generations are executed and the recorded final generation is the number executed (0, with a single `after_generation`, when termination is requested for the initial population). Statistics are written once per `after_generation`. Once a run has returned, none of its worker threads or processes is left.",
  ["histories", "configurations"], "every run: max_generation 0, 1, many; termination at any generation including 0; any number of checkers, statistics and subscribers; simple and NSGA-II evolution",
  "Tests check the final generation only, no test observes the order or number of events.",
  ["algorithms/algorithm.py", "algorithms/simple_evolution.py", "multi_objective_evolution/nsga2_evolution.py"],
  [("evolve / evolve_main_loop", "algorithms/algorithm.py")],
  ["events published by the algorithm, breeder and population evaluator", "final_generation_"],
  [("final_generation_", "last executed generation", "algorithms/algorithm.py"), ("generation_num", "current generation", "algorithms/algorithm.py")])

p("C07", "Termination: the run stops at the first generation a checker asks to",
  "The run ends with the first generation (including the initial population, generation 0) in which any configured checker asks for termination, and every configured checker is consulted exactly once per generation, with the current population, the best-of-run individual and the generation number, even when another one already fired. The threshold checker fires exactly when |best pure fitness - optimal| <= threshold; the stagnation checker fires exactly when the pure fitness of the population's best has stayed the same for at least the configured number (one or more) of consecutive checks; the crowding checker fires exactly when the largest finite crowding value is non-zero and below its threshold (it never fires when there is no finite value).",
  ["histories", "configurations"], "all sequences of checker answers and fitness histories, any number of checkers",
  "Tests exercise one checker with one history; consulting all checkers each generation only matters for stateful checkers after some history.",
  ["algorithms/algorithm.py", "termination_checkers/threshold_from_target_termination_checker.py", "termination_checkers/best_fitness_stagnation_termination_checker.py", "multi_objective_evolution/crowding_termination_checker.py"],
  [("should_terminate", "algorithms/algorithm.py"), ("should_terminate", "termination_checkers/")],
  ["final_generation_", "should_terminate return values"])

p("C08", "Selection clones winners only, fills the pool and keeps its pressure",
  "A selection method extends the destination pool to the size of the source with new clones of source individuals (genome equal, own id, cloned-from id of the source), leaves the source list and its individuals untouched, and leaves what was already in the destination in place; elitism selection adds clones of its num_elites best in best-first order. A tournament's winner is the best of tournament_size uniformly drawn participants (distinct ones when drawn without replacement, when too few individuals raise an error), so it is never one of the tournament_size-1 worst then; fitness-proportionate selection draws each individual with probability proportional to its fitness (to its reciprocal, after adding 1 if some fitness is 0, when minimising), never one of probability zero, and rejects negative fitness.",
  ["inputs", "histories", "configurations"], "all fitness vectors with ties, zeros, negatives, both directions, pool sizes, partially filled destinations, tournament sizes up to the population size, with and without replacement",
  "Selection is random: tests sample a handful of draws and assert sizes only.",
  ["genetic_operators/selections/tournament_selection.py", "genetic_operators/selections/fp_selection.py", "genetic_operators/selections/elitism_selection.py"],
  [("select", "genetic_operators/selections/")],
  ["destination list after select", "source individuals after select"])

p("C09", "A clone is an equal but independent individual with its own identity",
  "Cloning an individual yields an individual of the same type with an equal genome, bounds/primitives and generation, a fresh id, the original's id as cloned-from, and empty selection, operator and parent records; the original is unchanged by it. From then on nothing done to either one (mutation, crossover, evaluation, invalidation, record keeping) is visible through the other. A clone's fitness starts out unevaluated unless caching is on, in which case it equals the original's.",
  ["histories", "inputs"], "every individual type and state, every interleaving of clones, operators and evaluations on original, clone and clone of clone",
  "Tests compare a clone right after cloning; isolation is about all later histories.",
  ["individual.py", "fitness/simple_fitness.py", "multi_objective_evolution/nsga2_fitness.py", "genetic_encodings/ga/vector_individual.py", "genetic_encodings/gp/tree/tree_individual.py"],
  [("clone", "individual.py"), ("__getstate__", "fitness/simple_fitness.py")],
  ["both individuals after any sequence of operations"])

p("C10", "Vector individuals keep their length, cell types and bounds",
  "Every vector made by a vector creator, and every vector produced from in-bounds vectors by any library crossover or mutation in any sequence, has exactly the configured length, each cell within that cell's own inclusive bounds (one pair for all cells or one pair per cell), and cells of the vector's kind (bits, ints or floats). Each of the two bounds and every value between them of a small integer range is reachable. The in-bounds query answers exactly whether every cell is within its bounds.",
  ["inputs", "histories", "configurations"], "all lengths, uniform and per-cell bounds incl. two-cell vectors and degenerate or negative ranges, all sequences of creators and operators, gauss noise leaving the bounds",
  "Random operators: tests draw once on one vector with uniform bounds.",
  ["genetic_encodings/ga/vector_individual.py", "genetic_encodings/ga/int_vector.py", "genetic_encodings/ga/float_vector.py", "genetic_encodings/ga/bit_string_vector.py", "creators/ga_creators/simple_vector_creator.py", "genetic_operators/mutations/vector_n_point_mutation.py"],
  [("get_random_number_in_bounds", "genetic_encodings/ga/"), ("check_if_in_bounds + rollback", "genetic_operators/mutations/vector_n_point_mutation.py")],
  ["vector and bounds of every individual after each step"])

p("C11", "k-point crossover exchanges whole alternating segments at k cut points",
  "k-point crossover of two vectors of length n chooses k distinct inner cut points and exchanges every other segment between them: at each position the two offspring hold the two parents' cells of that position, one each, and whether they are exchanged changes exactly at the k cut points. All sets of k cut points are possible and the offspring are the parents' own objects, modified in place, with fitness invalidated. Asking for more cut points than there are inner positions is an error that leaves both vectors unchanged.",
  ["inputs", "configurations"], "all lengths n >= 2, all k from 1 to n-1, all cut sets, all vector kinds",
  "Tests use one length and assert with mocked cut points for k=1 and 2 only.",
  ["genetic_operators/crossovers/vector_k_point_crossover.py"],
  [("apply / _swap_vector_parts", "genetic_operators/crossovers/vector_k_point_crossover.py")],
  ["vectors after the crossover"])

p("C12", "Vector mutation touches only the chosen cells, and failure changes nothing",
  "An n-point (or one-point) float/int mutation re-draws cells at n distinct positions (any n of them can be chosen) and leaves all other cells as they were; the bit-flip mutation flips exactly one bit, the n-flip mutation at most n. With custom cell selector, value source and success test, an attempt writes exactly the sourced values to exactly the selected cells; attempts are made until the first one accepted for all individuals, at most the configured number, and a rejected attempt leaves no trace in any of the individuals. When every attempt fails the genomes are what they were before the operator, except that the Gaussian mutations then fall back to one in-bounds uniform mutation of the same number of cells.",
  ["inputs", "configurations", "fault_sequences"], "all vector lengths, n up to the length, arity 1 and more, all accept/reject sequences of attempts, all probabilities",
  "Tests use permissive success checks and arity 1; retry and rollback paths are not enumerated.",
  ["genetic_operators/mutations/vector_n_point_mutation.py", "genetic_operators/mutations/vector_random_mutation.py", "genetic_operators/failable_operator.py"],
  [("apply: attempts then on_fail", "genetic_operators/failable_operator.py"), ("attempt_operator rollback", "genetic_operators/mutations/vector_n_point_mutation.py")],
  ["vectors before and after the operator", "calls of the custom callbacks"])

p("C13", "Trees stay well-formed and type-correct through every operator",
  "Every tree made by a tree creator, and every tree obtained from such trees by any sequence of subtree crossovers, subtree mutations and constant mutations, is a complete prefix-order tree over the individual's own function and terminal sets (plus numbers where a constant range is configured or constants were mutated). In a typed configuration every node has exactly the type its parent's parameter (or the root type) asks for, constants included, and a constant has a value of its node's type. The reported size and depth are the real ones.",
  ["histories", "programs", "configurations"], "all function/terminal sets (arity 1-4, several types, constants in the terminal set, constant ranges), all operator sequences",
  "Tests apply one operator once to small hand-made trees.",
  ["genetic_encodings/gp/tree/tree_individual.py", "genetic_encodings/gp/tree/tree_node.py", "creators/gp_creators/full.py", "creators/gp_creators/grow.py", "genetic_operators/crossovers/subtree_crossover.py", "genetic_operators/mutations/subtree_mutation.py", "genetic_operators/mutations/erc_mutation.py"],
  [("random_function/random_terminal by type", "genetic_encodings/gp/tree/tree_individual.py"), ("replace_subtree", "genetic_encodings/gp/tree/tree_individual.py")],
  ["node list of every tree after each step"])

p("C14", "Tree creators honour the configured depths",
  "With initial depths (min, max) the full method makes trees whose every leaf is exactly at depth max, and the grow method makes trees with no leaf above depth min and none below depth max (every depth in between is possible when pruning is). Ramped half-and-half makes, for each depth d from min to max, equally many (floor(n / (2 (max-min+1)))) grow trees of depth at most d and full trees of depth exactly d, and fills any remainder with full trees of depth max, n individuals in all; it refuses n too small for one tree per group. A freshly grown mutation subtree obeys the grow rule for the mutation's own depths.",
  ["inputs", "configurations"], "all (min, max) depth pairs, pruning probabilities 0..1, population sizes, primitive sets",
  "Creation is random: tests look at one tree of one configuration.",
  ["creators/gp_creators/full.py", "creators/gp_creators/grow.py", "creators/gp_creators/half.py", "creators/gp_creators/tree_creator.py", "genetic_operators/mutations/subtree_mutation.py"],
  [("create_tree", "creators/gp_creators/"), ("create_individuals", "creators/gp_creators/half.py")],
  ["trees returned by create_individuals"])

p("C15", "Tree operators exchange or replace exactly one subtree, without sharing",
  "Subtree crossover of m trees replaces exactly one complete subtree in each, tree i+1 receiving the one taken from tree i cyclically, so that the nodes of all trees together are conserved; in typed trees all exchanged subtrees have one type. Subtree mutation replaces exactly one complete subtree by a newly generated one of the same type and constant mutation changes the value of one numeric leaf per tree and nothing else. Afterwards no node object is part of two trees or occurs twice in one, and when no admissible subtree or constant exists the trees are unchanged.",
  ["inputs", "programs", "histories"], "all trees including single leaves and whole-tree exchanges, repeated equal nodes, arity 2 and 3, typed and untyped, sequences of operators",
  "Tests mock the chosen subtree or assert inequality only.",
  ["genetic_operators/crossovers/subtree_crossover.py", "genetic_operators/mutations/subtree_mutation.py", "genetic_operators/mutations/erc_mutation.py", "genetic_encodings/gp/tree/tree_individual.py"],
  [("_pick_subtrees/_swap_subtrees", "genetic_operators/crossovers/subtree_crossover.py"), ("random_subtree, replace_subtree", "genetic_encodings/gp/tree/tree_individual.py")],
  ["node lists (with node identities) before and after"])

p("C16", "Executing a tree evaluates its expression, on scalars and on arrays alike",
  "Executing a tree with keyword arguments returns the value of the expression it denotes: functions applied to their arguments in order, variables looked up by name (whatever their values are), constants themselves, of whatever size and kind. Executing it on a 2-d array binds variable xi to column i and returns one value per row, equal to executing each row alone, cells that are not numbers (nan) included (a constant tree yields its constant for every row). An unknown or missing variable, or an empty tree, is rejected with an error, and execution changes neither the tree nor its inputs.",
  ["programs", "inputs"], "all trees over functions of arity 1-4 incl. non-commutative ones, constants in the terminal set, all argument sets, any number of rows and columns",
  "Tests execute a few fixed trees.",
  ["genetic_encodings/gp/tree/tree_individual.py", "genetic_encodings/gp/tree/utils.py", "base/untyped_functions.py"],
  [("execute/_execute", "genetic_encodings/gp/tree/tree_individual.py"), ("generate_args", "genetic_encodings/gp/tree/utils.py")],
  ["return value of execute"])

p("C17", "Fitness life cycle: never read stale, always compared in its direction",
  "A fitness can be read, and a single-objective one compared, only while it is evaluated; otherwise an error is raised. Setting a score makes it evaluated and readable (a multi-objective score can only be set while there is none), and applying any genetic operator to an individual (even one that fails) makes its fitness unevaluated, while an operator skipped by its probability leaves it alone. better_than is the strict order of augmented fitness in the configured direction (with bloat weight w: pure fitness worsened by w times the tree size) and equal_to is its equality; copying or pickling keeps the score exactly when caching is on (never for relative fitness).",
  ["histories", "inputs"], "all sequences of set, invalidate, read, compare, clone, pickle and operator application for simple, GP and multi-objective fitness, both directions, all bloat weights and sizes",
  "Tests cover single steps for one or two values; the protocol is about all histories.",
  ["fitness/fitness.py", "fitness/simple_fitness.py", "fitness/gp_fitness.py", "genetic_operators/genetic_operator.py", "multi_objective_evolution/nsga2_fitness.py"],
  [("_is_evaluated flag", "fitness/fitness.py"), ("apply_operator invalidates", "genetic_operators/genetic_operator.py"), ("__getstate__", "fitness/simple_fitness.py")],
  ["get_pure_fitness / better_than / equal_to / is_fitness_evaluated"])

p("C18", "NSGA-II keeps the best fronts, breaking ties by crowding",
  "NSGA-II survivor selection of N out of a combined population takes whole non-dominated fronts in order and, from the first front that does not fit, individuals of largest crowding distance; each survivor is labelled with its true front number (1 = non-dominated). The crowding distance is, per front, infinite for the ends of every objective's order and otherwise the sum over objectives of the neighbours' gap divided by the objective's range in the front (0 for a zero range). Selection of survivors neither creates, duplicates nor modifies individuals, and in a run no survivor is dominated by a discarded individual.",
  ["inputs", "configurations"], "all populations of 1-6 objectives with duplicates, ties, mixed directions, any N",
  "Tests check a handful of points in two objectives.",
  ["multi_objective_evolution/nsga2_front_sorting.py", "multi_objective_evolution/nsga2_evolution.py"],
  [("_select, _pareto_front_finding, _calc_fronts_crowding", "multi_objective_evolution/nsga2_front_sorting.py")],
  ["population, front_rank and crowding after select_for_population"])

p("C19", "Pareto dominance and crowded comparison are what they claim to be",
  "One multi-objective fitness dominates another exactly when it is at least as good in every objective and better in at least one, each objective in its own direction (one direction for all, or one per objective). Among ranked individuals the crowded comparison prefers the lower front number and, in equal fronts, the larger crowding distance, and equality is equality of both. Dominance with, and crowded comparison of a ranked individual to, an unevaluated fitness, another kind of fitness or another number of objectives is an error.",
  ["inputs"], "all objective vectors, directions, ranks and crowding values including infinite ones",
  "Finite samples of a universally quantified order relation (irreflexive, asymmetric, transitive).",
  ["multi_objective_evolution/nsga2_fitness.py"],
  [("dominate, better_than, equal_to", "multi_objective_evolution/nsga2_fitness.py")],
  ["dominate / better_than / equal_to"])

p("C20", "Publish/subscribe delivers each event once to each current subscriber",
  "Publishing an event calls every callback subscribed to it at that moment exactly once, in subscription order, with the publisher and the event's data, and calls nobody else. Each registration gets a handle of its own that unregisters just that one; registering or unregistering from inside a callback takes effect from the next publication. An operator publishes `before_operator` before and `after_operator` after doing its work, once each (after a genetic operator did its work, the data of `after_operator` are the individuals it was applied to), and publishing or registering for an unknown event is an error.",
  ["histories", "configurations"], "all sequences of register, unregister and publish on several events, including from inside callbacks, on every kind of operator",
  "Tests register one subscriber; delivery sets depend on the whole history.",
  ["before_after_publisher.py", "event_based_operator.py"],
  [("register/unregister/publish", "before_after_publisher.py"), ("act", "event_based_operator.py")],
  ["callback invocations"])

p("C21", "Algorithms survive saving, loading and copying at any point of their life",
  "An algorithm can be pickled and deep-copied before, during (from an event callback) and after a run; the copy has the same population genomes, ids, generation counters, seeds and best individual genome, and shares no mutable state with the original. A copy taken before a run evolves exactly as the original would with the same seed. A copy taken after a run executes to the same results as the original.",
  ["histories", "crash_points"], "every life-cycle point, executor kind, vector and tree populations, simple and NSGA-II evolution, repeated copies of copies",
  "Tests pickle one finished algorithm at most.",
  ["algorithms/algorithm.py", "evaluators/population_evaluator.py", "fitness/simple_fitness.py", "multi_objective_evolution/nsga2_front_sorting.py"],
  [("__getstate__/__setstate__", "algorithms/algorithm.py"), ("__getstate__", "evaluators/population_evaluator.py")],
  ["behaviour of the unpickled algorithm"])

p("C22", "The scikit-learn wrappers train on the given data and predict with the best",
  "fit evolves against exactly the X and y it was given (every evaluation uses them), returns the estimator and makes it fitted; predict before fit is an error. Regressor predictions for any X are the best-of-run individual's outputs on X, one per row, repeatable, independent of earlier predictions and the same after pickling the estimator; the fitness of an individual is the configured metric of (y, its outputs on X). The classifier maps outputs to labels 0..n_classes-1 by equal slices of the sigmoid (the label is the number of thresholds k/n_classes reached), or takes the output of an argmax/softmax rooted tree as is.",
  ["histories", "inputs", "configurations"], "all sequences of construct, predict, fit, predict on different data, clone/pickle; all data shapes, class counts and metrics",
  "One test fits one estimator of each kind.",
  ["sklearn_compatible/sklearn_wrapper.py", "sklearn_compatible/sk_classifier.py", "sklearn_compatible/sk_regressor.py", "sklearn_compatible/classification_evaluator.py", "sklearn_compatible/regression_evaluator.py"],
  [("fit/predict", "sklearn_compatible/sklearn_wrapper.py"), ("_clf_sigmoid", "sklearn_compatible/classification_evaluator.py")],
  ["predict results", "evaluator context during evaluations"])

p("C23", "Statistics report the true best, worst, mean, size and fronts",
  "For each generation the single-objective statistics report, per subpopulation, the pure fitness of its best and worst individual (by augmented fitness in the subpopulation's direction), the arithmetic mean of the pure fitnesses and, where offered, the mean tree size, labelled with the generation number. Once survivors are ranked, the two-objective statistics report the size and share of the first front, the number of fronts and the distinct corner points of the first and last front. Best/worst/average queries on a population agree with its members and change nothing.",
  ["inputs", "histories", "configurations"], "all fitness assignments with ties, infinities, bloat weights, directions, several subpopulations, custom format strings",
  "Statistics output is not asserted by tests.",
  ["statistics/best_average_worst_statistics.py", "statistics/best_avg_worst_size_tree_statistics.py", "multi_objective_evolution/moe_best_worst_statistics.py", "subpopulation.py", "population.py"],
  [("write_statistics", "statistics/"), ("get_best_individual/get_worst_individual/get_average_fitness", "subpopulation.py")],
  ["statistics output", "Population.get_*"])

p("C24", "Provenance: every individual tells the truth about where it came from",
  "After each generation of a single-objective run every individual names the individual it was cloned from (a member of the previous generation), the selection methods that selected it and, in order, the genetic operators that were applied to it in that generation, failed ones included and skipped ones not. With parent tracking on (a setting of each individual, which its copies inherit), the recorded parents are exactly the ids of the individuals that took part in the operators applied to it in that generation. An individual no operator was applied to has the genome of the individual it was cloned from.",
  ["histories", "configurations"], "every generation of every run over operator sequences with probabilities 0..1, failing operators, elites, parent tracking",
  "Tests look at one generation with certain operators.",
  ["individual.py", "genetic_operators/genetic_operator.py", "genetic_operators/selections/", "breeders/simple_breeder.py"],
  [("clone resets records", "individual.py"), ("apply_operator appends", "genetic_operators/genetic_operator.py")],
  ["cloned_from, selected_by, applied_operators, parents"])

p("C25", "Built-in GP functions are total, element-wise and as documented",
  "Each built-in function computes its documented value for numbers and, element by element, for arrays: protected division, inverse and logarithm give 0 exactly when the divisor's (argument's) magnitude is at most 0.001 and the plain result otherwise, protected square root takes the root of the magnitude, the conditionals choose by <= or > as named, and the logical ones follow their truth tables. Typed functions agree with their untyped counterparts on their domain. They never raise and never modify their arguments for numeric input.",
  ["inputs"], "all argument values around the thresholds, negative, zero, huge; scalars and arrays mixed",
  "The base tests try one or two values per function and none at the thresholds.",
  ["base/untyped_functions.py", "base/typed_functions.py"],
  [("functions", "base/untyped_functions.py"), ("functions", "base/typed_functions.py")],
  ["return values"])

p("C26", "Invalid configurations are refused, valid ones accepted",
  "Constructing a component with an invalid configuration raises an error instead of producing a broken run: no/empty/non-creator creators, creator probabilities of wrong number or not summing to 1, missing operators, missing/empty/wrongly typed population, wrongly typed statistics, unknown executor or executor method, wrong breeder or evaluator kind in simple evolution, fewer than one attempt, a bounds tuple that is not a pair or a bounds list without one entry per cell, vector contents that are not a list of the vector's length, tree primitives that are missing, not callable, or inconsistent in types with each other or with the root type (refused at the latest when the first tree is created). Valid combinations of the same options are accepted. A run whose population size is not a multiple of every operator's arity, or that has more than one subpopulation, is refused by simple evolution.",
  ["configurations"], "all combinations of valid and invalid option values",
  "Tests cover single invalid options, not combinations.",
  ["subpopulation.py", "algorithms/algorithm.py", "algorithms/simple_evolution.py", "genetic_encodings/ga/vector_individual.py", "genetic_encodings/gp/tree/tree_individual.py", "genetic_operators/failable_operator.py", "evaluators/simple_population_evaluator.py", "breeders/simple_breeder.py"],
  [("constructor validation", "subpopulation.py, algorithms/algorithm.py, ...")],
  ["exceptions raised by constructors and evolve"])

p("C27", "The initial population is exactly what was configured",
  "A run starts from the individuals supplied to the subpopulation, as they are and however many, or else from population_size individuals all made by one of the configured creators, chosen with the configured probabilities (one of probability 0 never); the creator is asked once, for exactly that number and with the subpopulation's fitness direction. Every created individual has its own unevaluated fitness object of that direction, generation 0 and empty records, and carries the creator's settings (bounds, primitives, constant range, root type, bloat weight, parent tracking).",
  ["configurations", "inputs"], "all creators, creator lists and probabilities, sizes, directions and creator settings",
  "Tests create a few individuals with default settings.",
  ["subpopulation.py", "population.py", "creators/creator.py", "creators/ga_creators/simple_vector_creator.py", "creators/gp_creators/tree_creator.py", "creators/gp_creators/half.py"],
  [("create_subpopulation_individuals", "subpopulation.py"), ("create_individuals", "creators/")],
  ["population at init"])

p("C28", "Random tree construction and variation can reach everything the rules allow",
  "Over the random choices, the full, grow (pruning probability strictly between 0 and 1) and half-and-half methods can produce exactly the trees that the configured depths, primitives and types allow: every function and terminal of the asked type at every node, and every value of an integer constant range, both ends included (every part of a float range). Subtree mutation can replace any subtree (in typed trees any but the whole tree) by any tree its depths and the subtree's type allow; subtree crossover can exchange any combination of subtrees (in typed trees any combination of one type, whole trees excepted); constant mutation can change any numeric constant of a tree. Nothing else can come of them. This holds also for subtrees and constants that are equal to others in the same tree, and to its root.",
  ["inputs", "configurations"], "every outcome of the random choices, for all grammars, depths and trees, equal nodes included",
  "Tests run an operator once and look at one outcome; a tree that can never be made or a subtree that can never be chosen does not show in any of them.",
  ["creators/gp_creators/full.py", "creators/gp_creators/grow.py", "creators/gp_creators/half.py", "genetic_encodings/gp/tree/tree_individual.py", "genetic_operators/mutations/subtree_mutation.py", "genetic_operators/mutations/erc_mutation.py", "genetic_operators/crossovers/subtree_crossover.py"],
  [("create_tree", "creators/gp_creators/"), ("random_subtree/random_function/random_terminal/get_random_numeric_node", "genetic_encodings/gp/tree/tree_individual.py")],
  ["sets of trees produced by creators and operators"])

p("C29", "Editing a vector individual is editing a list, and only that one",
  "The editing calls of vector individuals act as the list operations they are named after: adding a cell, emptying, setting the vector or a cell, reading a cell, the vector or a part (negative indices count from the end, a cell that does not exist is an error that changes nothing), replacing a part that fits (at a given or a random place; the replaced part is returned). Size and length always are the number of cells, executing gives the vector, parts handed in or out are copies, and other individuals, clones included, are not affected. A random part can be every non-empty contiguous part, a random place every place where the part fits, a random number every value within the cell's bounds, and the in-bounds query is right about the current cells.",
  ["histories", "inputs"], "all sequences of editing calls over several individuals and their clones",
  "Tests call each method once on one vector; a wrong edge (last cell, whole vector, one cell), a shared list or a stale length needs a sequence.",
  ["genetic_encodings/ga/vector_individual.py", "genetic_encodings/ga/int_vector.py", "genetic_encodings/ga/bit_string_vector.py", "genetic_encodings/ga/float_vector.py"],
  [("add_cell/replace_vector_part/random_vector_part/...", "genetic_encodings/ga/vector_individual.py")],
  ["vector, size, length and return values after each call"])

p("C30", "The text of a tree is its expression",
  "The text of a tree is a function definition: its name contains the individual's id, its parameters are the terminals in order (with their types in typed trees, and the type of the root as return type), and its body is the tree's expression in prefix call notation with each function followed by all its arguments, so that the tree can be read back from it and two different trees over the same primitives never share a body. Printing does not change the tree.",
  ["inputs", "histories"], "all trees of all shapes, also after any sequence of operators, functions of every arity including none",
  "No test looks at the text of more than a simple tree.",
  ["genetic_encodings/gp/tree/tree_individual.py", "genetic_encodings/gp/tree/tree_node.py"],
  [("__str__/_str_rec", "genetic_encodings/gp/tree/tree_individual.py"), ("__str__", "genetic_encodings/gp/tree/tree_node.py")],
  ["str(tree), repr(tree)"])

p("C31", "Building and editing a tree by hand keeps its structure",
  "Nodes added one by one to a tree (in prefix order) are accepted exactly when the tree is still empty or incomplete and the node has the type that the parameter it would fill asks for; a refused node raises ValueError and changes nothing. At every moment the size is the number of nodes, and once complete the depth is the real one. Replacing a subtree puts the new subtree at exactly that place, also when equal subtrees occur elsewhere; filtering returns the matching nodes in order and changes nothing; the random node sources return every function (terminal, constant) of the asked type and no other, and nothing when there is none.",
  ["histories", "inputs"], "all building sequences over typed and untyped grammars with functions of every arity including none, nodes of all types offered at all places",
  "Tests add one level of nodes below the root.",
  ["genetic_encodings/gp/tree/tree_individual.py", "genetic_encodings/gp/tree/tree_node.py"],
  [("add_tree/_should_add/replace_subtree/filter_tree/random_function/random_terminal", "genetic_encodings/gp/tree/tree_individual.py")],
  ["tree after each call, exceptions"])

p("C32", "Random choices follow the configured probabilities",
  "An operator is applied to a group of individuals with its configured probability (never at 0, always at 1), for every group independently of the other groups and of the other operators of the sequence, and to all of the group or to none. Flip mutation flips every chosen bit, and per-cell integer mutation redraws every cell, with probability_for_each. The n cells of an n-point mutation are n different ones, every such set equally likely, and so are the k cut points of a crossover; new values and initial cells are uniform over the cell's bounds, both ends included, and independent of each other; Gaussian mutations add noise of mean mu and deviation sigma (far from the bounds). The grow method makes a node between its depths a leaf with probability p_prune (half by default), functions and terminals of the asked type are equally likely (the constant range counting as one terminal, its integers equally likely), independently at every node; the subtree mutated or crossed over is equally likely every subtree (in typed trees: every one but the whole tree, and in the second parent of the same type), and the constant mutated every numeric constant.",
  ["inputs", "configurations", "histories"], "all probabilities, numbers of points, lengths, bounds, grammars and trees; the distribution over all random choices",
  "Tests run an operator once, or with probability 1; no test looks at frequencies.",
  ["genetic_operators/genetic_operator.py", "genetic_operators/mutations/vector_n_point_mutation.py", "genetic_operators/mutations/vector_random_mutation.py", "genetic_operators/crossovers/vector_k_point_crossover.py", "genetic_operators/mutations/erc_mutation.py", "creators/gp_creators/grow.py", "genetic_encodings/gp/tree/tree_individual.py", "genetic_encodings/ga/float_vector.py", "genetic_encodings/ga/int_vector.py", "genetic_encodings/ga/bit_string_vector.py"],
  [("apply_operator", "genetic_operators/genetic_operator.py"), ("default_cell_selector", "genetic_operators/mutations/vector_n_point_mutation.py"), ("create_tree", "creators/gp_creators/grow.py")],
  ["counts of outcomes over many applications"])

p("C33", "Sub-populations breed apart, each by its own rules",
  "A breeding step over a population of any number of sub-populations replaces the individuals of each one by exactly as many, all of them fresh clones descended from individuals of the same sub-population. The first round(elitism rate x size) are its own best, best first, unmodified; the rest are selected by its own first selection method from its own individuals and pass once through each of its own operators in order, in consecutive groups of the operator's arity. The operators, selection, elitism rate and fitness direction of one sub-population have no influence on another; the configuration and the previous individuals stay as they were. A sub-population whose size is not divisible by the arity of one of its operators is refused with ValueError. In a run (with a user's evaluator for several sub-populations) the individuals of every sub-population carry the current generation number and the recorded best and worst of the generation are members of the current generation.",
  ["configurations", "histories"], "all numbers of sub-populations, sizes, directions, elitism rates, selections and operator sequences, mixed in one population",
  "Tests never breed more than one sub-population.",
  ["breeders/simple_breeder.py", "breeders/breeder.py", "population.py", "subpopulation.py", "algorithms/algorithm.py"],
  [("apply_breed", "breeders/simple_breeder.py"), ("update_gen", "algorithms/algorithm.py")],
  ["individuals of every sub-population before and after each breeding step"])

p("C34", "A used component works like a new one",
  "What a use of a component gives depends only on the component's configuration, on what it is given and on the random draws, not on what it was used for before, on how often, on whether earlier uses failed with an exception, or on who else uses it: operators (on individuals of other lengths, bounds, grammars), selections (on other populations, or the same individuals with other fitness), creators, breeders, population evaluators, fitness and crowding threshold checkers, statistics and NSGA-II survivor selection. In particular a run made of parts that other runs used before, or that other runs use inside its callbacks, is the run of new parts with the same seed (the checker that counts stagnation excepted; a population evaluator, breeder or executor serves one run at a time).",
  ["histories", "inputs", "configurations"], "all histories of uses of shared components, failing uses included; all runs made of used parts, nested runs",
  "Tests build every component anew and use it once.",
  ["genetic_operators/genetic_operator.py", "genetic_operators/failable_operator.py", "genetic_operators/selections/tournament_selection.py", "genetic_operators/selections/fp_selection.py", "genetic_operators/selections/elitism_selection.py", "genetic_operators/mutations/vector_n_point_mutation.py", "genetic_operators/mutations/vector_random_mutation.py", "genetic_operators/mutations/subtree_mutation.py", "genetic_operators/mutations/erc_mutation.py", "genetic_operators/crossovers/vector_k_point_crossover.py", "genetic_operators/crossovers/subtree_crossover.py", "creators/ga_creators/simple_vector_creator.py", "creators/gp_creators/tree_creator.py", "creators/gp_creators/half.py", "breeders/simple_breeder.py", "evaluators/simple_population_evaluator.py", "multi_objective_evolution/nsga2_front_sorting.py", "multi_objective_evolution/nsga2_breeder.py", "statistics/best_average_worst_statistics.py"],
  [("apply_operator", "genetic_operators/genetic_operator.py"), ("attempt loop", "genetic_operators/failable_operator.py"), ("domination_dict", "multi_objective_evolution/nsga2_front_sorting.py")],
  ["results of uses, individuals given to them, histories of runs"])

p("C35", "Options left out take their defaults",
  "Leaving out an option of a component (vector and tree creators and individuals, operators and the base classes for a user's own, selections, fitness types, termination checkers, evaluators, sub-populations, SimpleEvolution, NSGA2Evolution and a user's own Algorithm) is the same as giving the default value its signature shows, whichever other options are given and in whichever order instances are made: with equal random draws both do exactly the same. A default that is an object (fitness of a tree, breeder, population evaluator) belongs to the one instance: what one instance does with it, or what is registered at it, never shows in another one, also when algorithms run alternately or inside each other's callbacks.",
  ["configurations", "histories"], "all subsets of options given or left out, all values of the others, instances used alternately",
  "Tests give the options they need; no test compares an omitted option with its default, or two instances with the same omitted option.",
  ["genetic_operators/mutations/vector_random_mutation.py", "genetic_operators/genetic_operator.py", "genetic_operators/failable_operator.py", "creators/ga_creators/simple_vector_creator.py", "fitness/gp_fitness.py", "subpopulation.py", "algorithms/simple_evolution.py", "multi_objective_evolution/nsga2_evolution.py", "genetic_encodings/gp/tree/tree_individual.py", "termination_checkers/best_fitness_stagnation_termination_checker.py"],
  [("__init__ of every component", "algorithms/simple_evolution.py"), ("__init__", "genetic_encodings/gp/tree/tree_individual.py")],
  ["outcomes of uses of two instances with equal draws"])

p("C36", "Functions and data are bound as they are declared",
  "For a plain function or lambda, the reported types are those of its parameters in their order with the return type last (None for each when nothing is declared), its arity is the number of its parameters, and its node has that arity and the return type; a function that declares only some of its types is refused with ValueError. For a table of n rows and m columns the terminal set is x0..x(m-1) in column order (with the Python type of each column when typed), the generated arguments bind each of these names to its whole column, so that a tree executed with them gives one result for each row, computed from that row's own values; the table is not changed. Two nodes are equal exactly when they are of the same kind, have the same function (the same value object) and the same type.",
  ["inputs"], "all functions by number, order, kind and types of parameters; all tables by shape, dtype and memory layout; all pairs of nodes",
  "Tests look at a few functions and one table of four columns; the order of types is taken from Python's reflection, which does not keep it for every kind of parameter.",
  ["genetic_encodings/gp/tree/utils.py", "base/utils.py", "genetic_encodings/gp/tree/tree_node.py"],
  [("get_func_types/get_return_type/create_terminal_set/generate_args", "genetic_encodings/gp/tree/utils.py"), ("arity", "base/utils.py"), ("FunctionNode/TerminalNode", "genetic_encodings/gp/tree/tree_node.py")],
  ["returned lists and dictionaries, exceptions, tree results"])

p("C37", "A failure in the user's code reaches the caller and spoils nothing",
  "When code of the user (creator, evaluator, selection, operator, random generator, termination checker, statistics, or a callback of the algorithm, breeder, population evaluator or an operator) raises an exception (other than StopIteration) during a run, evolve() and the fit() of a wrapper raise that very exception, the run ends there (only calls asked for together with the failing one, such as evaluations already handed to the executor or the rest of the same publication, may still happen), and the wrapper is not fitted. What was reached stays as it was: generation_num is the generation under way, final_generation_ the last one executed, and in a single-objective run best_of_run_ is the best of all completed evaluations of the population (None when the first one failed; either state while the callbacks after an evaluation run). While a single-objective run breeds its next generation, the individuals of the last completed one, with their genomes, ids, records and scores, are those that after_generation showed.",
  ["fault_sequences", "configurations", "histories"], "all configurations of a run, all calls of the user's code that may fail, all exception types but StopIteration",
  "Tests never let the user's code fail in the middle of a run; which state is left depends on the site, the generation and the order in which the algorithm updates its attributes.",
  ["algorithms/algorithm.py", "algorithms/simple_evolution.py", "breeders/simple_breeder.py", "evaluators/simple_population_evaluator.py", "before_after_publisher.py", "sklearn_compatible/sklearn_wrapper.py"],
  [("Algorithm.evolve/evolve_main_loop", "algorithms/algorithm.py"), ("SimpleEvolution.generation_iteration", "algorithms/simple_evolution.py"), ("SimpleBreeder.apply_breed", "breeders/simple_breeder.py"), ("SimplePopulationEvaluator._evaluate", "evaluators/simple_population_evaluator.py")],
  ["the exception that evolve() or fit() raises", "population, best_of_run_, generation_num, final_generation_ after it", "calls of user code after the failure"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P))
