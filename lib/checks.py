"""Which model configurations, drivers and trace specifications decide which property."""


class MC:
    """An exhaustive TLC run of a bounded model.

    bugs: {name of a seeded design error: invariant expected to be violated} - run in the
    thorough tier (and by the models) to show that the invariants are not vacuous."""

    def __init__(self, module, cfg=None, bugs=None, workers=2, timeout=600, consts=None, thorough=None, const="Bug"):
        self.module, self.cfg = module, cfg or module + ".cfg"
        self.bugs, self.workers, self.timeout = bugs or {}, workers, timeout
        self.consts, self.thorough, self.const = consts or {}, thorough, const


class Drive:
    """A driver recording traces of the real code, judged by a trace specification."""

    def __init__(self, driver, trace, shards=2, tshards=8, timeout=400, hashseeds=("0",), opts=None, gen=None):
        self.driver, self.trace, self.shards, self.tshards = driver, trace, shards, tshards
        self.timeout, self.hashseeds, self.opts = timeout, hashseeds, opts or {}
        self.gen = gen  # list of (module, cfg, quick constants, thorough constants): cases enumerated by TLC


class Check:
    def __init__(self, technique, note, drives, mc=(), assumptions=(), pre=None):
        self.technique, self.note, self.drives, self.mc = technique, note, drives, list(mc)
        self.assumptions, self.pre = list(assumptions), pre


VEC_MC = MC("MCVector", bugs={"xo_shift": "XOExact", "rollback_last_only": "FailedAttemptLeavesNoTrace"},
            thorough={"Lo": "<- LoW", "Hi": "<- HiW", "N": "= 4"})
RANK = "order-preserving rank encoding of numbers by the recorder"
TV = "TLA+ model checking (TLC) + trace validation of the real code"

EVO_MC = [MC("MCEvoRun", consts={"K": "= 2", "Score": "<- S2"}, thorough={"K": "= 3", "Score": "<- S3"},
             bugs={"best_of_first": "C01_Best", "alias": "*", "elite_operated": "C02_Elites",
                   "no_truncate": "C03_Accounting", "elites_last": "C02_Elites"}),
          MC("MCEvoRun", consts={"K": "= 2", "Score": "<- S2", "NElite": "= 0", "HiB": "= FALSE"},
             thorough={"K": "= 3", "Score": "<- S3"}, bugs={"best_of_gen": "C01_Best"})]
EVO = Drive("evorun", "TraceEvoRun", shards=4)
EVO_A = ["runs are observed through the library's extension points: subclassed creators, selections, operators, evaluators, checkers, random generator and registered callbacks",
         "evaluators score in multiples of 1/8 so that fitness arithmetic is exact"]

CHECKS = {
    "C01": Check(TV, "EvoRun.tla (heap model of a run) checked exhaustively for 2 individuals, 2 generations; whole recorded runs of the real SimpleEvolution (vectors, trees, ties, infinities, bloat, elitism, all executors) are judged step by step", [EVO], EVO_MC, EVO_A),
    "C02": Check(TV, "as C01; elites are identified as the members not produced by the selection method and compared with the previous generation, every operator call is recorded", [EVO], EVO_MC, EVO_A),
    "C03": Check(TV, "as C01, plus NSGA-II runs; object identities and storage of every individual of every generation are recorded", [EVO], EVO_MC, EVO_A),
    "C06": Check(TV, "as C01, plus NSGA-II runs; the event order is the protocol automaton of EvoRun.tla", [EVO], EVO_MC, EVO_A),
    "C24": Check(TV, "as C01; expected records are rebuilt from the recorded selection and operator calls", [EVO], EVO_MC, EVO_A),
    "C10": Check(TV, "Vector.tla model checked exhaustively for 3-cell vectors; every recorded creator/operator step of the real code must be a step of that model. Explores random configurations and sequences, not all of them.",
                 [Drive("vector", "TraceVector")], [VEC_MC], [RANK]),
    "C11": Check(TV, "as C10; all cut sets for n<=6 (thorough 7) are enumerated and must all occur, longer vectors sampled",
                 [Drive("vector", "TraceVector")], [VEC_MC], [RANK]),
    "C12": Check(TV, "as C10; the failable protocol (attempt, rollback, fallback) is modelled step by step and scripted callbacks drive the real operator through accept/reject patterns",
                 [Drive("vector", "TraceVector")], [VEC_MC], [RANK]),
}

TERM_MC = MC("MCTermination", bugs={"late": "StopsAtFirst", "short_circuit": "EveryoneAsked"})
SEL_MC = MC("MCSelection", bugs={"reversed": "WinnerIsBest", "skip_last": "WinnerIsBest"}, thorough={"M": "= 4", "F": "<- FW"})
LIFE_MC = MC("MCLifecycle", thorough={"MaxSteps": "= 6"},
             bugs={b: "Isolation" for b in ("keep_fitness", "keep_on_fail", "shallow_genome", "shared_fitness", "always_cached")})
LIFE = Drive("lifecycle", "TraceLifecycle", shards=2)
CHECKS.update({
    "C07": Check(TV, "Termination.tla (checkers and the run loop's use of them) checked exhaustively; all two-valued fitness histories of length 6 (thorough 8) and random ones are replayed into the real checkers, and whole runs with scripted checkers are judged",
                 [Drive("termination", "TraceTermination"), EVO], [TERM_MC], EVO_A),
    "C08": Check(TV, "Selection.tla checked exhaustively for small pools; every recorded selection of the real code must be one of the model's, and draw frequencies must agree with the model's probabilities",
                 [Drive("selection", "TraceSelection", shards=4)], [SEL_MC],
                 ["draw frequencies are judged with bounds a correct sampler exceeds with probability below 1e-9"]),
    "C09": Check(TV, "Lifecycle.tla (values vs. heap of references) checked exhaustively; random histories of real individuals (vectors, trees, single- and multi-objective) are judged after every step, all other individuals included",
                 [LIFE], [LIFE_MC]),
    "C17": Check(TV, "as C09, plus the operator steps of whole runs", [LIFE, EVO], [LIFE_MC], EVO_A),
})

TREE_MC = [MC("MCTree", thorough={"MaxD": "= 3", "MaxOps": "= 1"},
              bugs={"grow_late": "Grown", "untyped_terms": "WellTyped", "end_short": "WellFormed", "any_type": "WellTyped", "share": "NoSharing"}),
           MC("MCTree", consts={"Funs": "<- FunsU", "Terms": "<- TermsU", "MaxD": "= 1"}, thorough={"MaxD": "= 2", "MaxOps": "= 1"})]
TREE = Drive("tree", "TraceTree", shards=4)
TREE_A = ["the true signatures of the functions used are written down in the driver; constants are compared by rank (order preserving)"]
CHECKS.update({
    "C13": Check(TV, "Tree.tla (creation node by node, crossover, mutation) checked exhaustively for two small typed/untyped grammars; every tree of every recorded step of the real code (8 grammars, typed and untyped, with and without constants) is judged", [TREE], TREE_MC, TREE_A),
    "C14": Check(TV, "as C13; the creation rules are those of the model, half-and-half is judged by an order-free counting rule", [TREE], TREE_MC, TREE_A),
    "C15": Check(TV, "as C13; each recorded operator step must be a crossover/mutation/constant step of the model on the recorded trees, with node identities", [TREE], TREE_MC, TREE_A),
    "C16": Check(TV, "as C13; the specification's own evaluator (Tree!Eval) computes the expected value of every row on integer inputs", [TREE], TREE_MC,
                 TREE_A + ["functions with integer results on integer inputs; the arithmetic functions themselves are decided by C25"]),
})

CHECKS.update({
    "C20": Check(TV, "PubSub.tla (re-entrant publish/subscribe, with liveness) checked exhaustively for 2 events and 4 registrations; all scripts of three callbacks out of 8 re-entrant behaviours (thorough: four) and random sequences are replayed into the real publisher and judged call by call",
                 [Drive("pubsub", "TracePubSub", shards=2)],
                 [MC("MCPubSub", bugs={"live": "InOrder", "lifo": "InOrder", "reuse": "Delivered"}, thorough={"MaxSteps": "= 5", "MaxH": "= 5"})]),
})

NSGA_MC = [MC("MCNSGA2", thorough={"M": "= 5", "N": "= 3"},
              bugs={"strict_all": "RankTrue", "weak": "Survivors", "first_dir": "RankTrue", "once": "Survivors"}),
           MC("MCNSGA2", consts={"K": "= 3", "Dir": "<- DirW", "Vals": "= {0, 1}"})]
NSGA = Drive("nsga2", "TraceNSGA2", shards=4)
CHECKS.update({
    "C18": Check(TV, "NSGA2.tla (front peeling, crowding, truncation) checked exhaustively against a declarative definition of fronts and survivors for all populations of 4 points on a 3x3 grid; the real sorter is run on the same populations, on random ones of 1-3 objectives and inside real runs, and every recorded selection is judged",
                 [NSGA], NSGA_MC, ["objectives are multiples of 1/8; crowding is compared as an exact fraction"]),
    "C19": Check(TV, "as C18; dominance and crowded comparison are recorded for all pairs of small objective vectors and for random ones, including unevaluated and foreign operands", [NSGA], NSGA_MC),
})

POOL = Drive("evalpool", "TraceEvalPool", shards=4, gen=[
    ("EvalPool", "GenEvalPool.cfg", {}, {"N": "= 3", "W": "= 3"}),
    ("EvalPool", "GenEvalPool.cfg", {"W": "= 1"}, {"N": "= 4", "W": "= 2"}),
    ("EvalPool", "GenEvalPool.cfg", {"W": "= 3"}, {"N": "= 4", "W": "= 4"})])
CHECKS.update({
    "C04": Check("TLA+ model checking (TLC) + replay of the model's schedules into the real code + trace validation",
                 "EvalPool.tla (queue, workers, completion in any order, failures, liveness) checked exhaustively for 3 individuals; every schedule and failure set of that model is forced onto the real evaluator through a gated evaluator, for map and submit; process pools are driven by delays",
                 [POOL, EVO], [MC("MCEvalPool", bugs={"completion_order": "OwnScore", "swallow": "AllScored", "requeue": "Once"},
                                  thorough={"N": "= 4", "W": "= 3"})],
                 ["thread schedules are forced by gating the evaluator; processes are steered by delays, so their completion order is likely but not certain"]),
})

CHECKS.update({
    "C05": Check("TLA+ model checking of the self-composition (TLC) + trace validation of pairs of real runs",
                 "Repro.tla composes two runs that differ in ambient generator state, callbacks and evaluation order and checks that their histories agree; real runs of random configurations (vectors, typed and untyped trees, NSGA-II) are repeated in four environments (separate processes, hash seeds, executors, worker counts, jitter, prior runs, numbers drawn between generations) and must agree; the seeds handed to the generator are judged in whole recorded runs",
                 [Drive("repro", "TraceRepro", shards=4, tshards=6), EVO],
                 [MC("MCRepro", bugs={b: "Reproducible" for b in ("seed_late", "no_reseed", "eval_draws", "global_count")}, thorough={"MaxGen": "= 2", "N": "= 3"})],
                 ["evaluators are deterministic functions of the genome"]),
})

CHECKS.update({
    "C26": Check("TLA+ model checking (TLC) + replay of every configuration of the model into the real code",
                 "Config.tla defines the option values, the checks and the verdict (checks in any order decide exactly Valid); TLC enumerates all 6933 configurations of 7 components, each is built with the real code and its verdict compared",
                 [Drive("config", "TraceConfig", shards=4, tshards=4, gen=[("MCConfig", "GenConfig.cfg", {}, {"Sizes": "= {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 24}"})])],
                 [MC("MCConfig", bugs={b: "Sound" for b in ("pcrlen", "pcrsum", "ops", "arity", "content", "attempts")},
                     thorough={"Comps": "<- All"})],
                 ["options have a handful of representative valid and invalid values each; all their combinations are tried"]),
})

CHECKS.update({
    "C27": Check(TV, "InitPop.tla (choice of creator, creation, supplied individuals, repeated creation) checked exhaustively; random subpopulations of all creators and settings are created with the real code and judged, creator frequencies are compared with the configured weights, and whole recorded runs are judged",
                 [Drive("initpop", "TraceInitPop", shards=2), EVO],
                 [MC("MCInitPop", bugs={b: "Ready" for b in ("ignore_weights", "one_by_one", "shared_fitness", "default_direction")}),
                  MC("MCInitPop", consts={"Supplied": "= 2"}, bugs={"recreate": "Ready"})],
                 ["creator frequencies are judged with bounds a correct sampler exceeds with probability below 1e-9"]),
})

CHECKS.update({
    "C25": Check("TLA+ definitions model checked for their algebraic laws (TLC) + trace validation of the real functions",
                 "GPFun.tla defines the value or branch of every function; its laws are checked over a small domain; every recorded call of every library function (scalars, arrays, mixed, all special values around 0.001, huge, infinite, bools, ints) must return what the definition says",
                 [Drive("functions", "TraceGPFun", shards=4)], [MC("MCGPFun", bugs={"iflte0_strict": "Laws"}, thorough={"D": "<- DW"})],
                 ["the unprotected value of transcendental functions is taken from Python's math module (relative tolerance 1e-9); plain arithmetic is compared exactly"]),
})

CHECKS.update({
    "C21": Check(TV, "Persist.tla (algorithms in a heap, copied at any point, evolving independently) checked exhaustively for 3 algorithms; real algorithms are pickled and deep-copied before, in every callback of, and after real runs (copies of copies, other processes included), every algorithm is looked at after every step",
                 [Drive("persist", "TracePersist", shards=4)],
                 [MC("MCPersist", consts={"Seeds": "= {0, 1}"}, bugs=dict({b: "Faithful" for b in ("shallow", "drop_best", "lose_gseed")}, split_best="SameShape", share_executor="Able"),
                     thorough={"MaxGen": "= 3", "N": "= 3", "Seeds": "= {0, 1, 2, 3}"})],
                 ["callbacks, evaluators and termination checkers registered by the user are picklable"]),
})

CHECKS.update({
    "C22": Check(TV, "Sklearn.tla (estimators under every sequence of predict, fit, pickle, clone; the slices of the sigmoid) checked exhaustively for 3 estimators; real estimators of every kind are taken through random sequences, every metric call, fitness and answer is judged",
                 [Drive("sklearnd", "TraceSklearn", shards=4)],
                 [MC("MCSklearn", bugs=dict({b: "Answers" for b in ("keeps_context", "last", "train_x")}, forgets="Alike"))],
                 ["outputs of a genome are computed by the driver's own interpreter of the recorded tree; probabilities closer than 1e-12 to a threshold (but not on it) are not judged"]),
})

CHECKS.update({
    "C23": Check(TV, "Stats.tla (queries by sorting against declarative best, worst, mean, fronts and corners) checked exhaustively for 3 members; the text the real statistics write, stand-alone and in runs, and the real queries are judged against it",
                 [Drive("stats", "TraceStats", shards=4)],
                 [MC("MCStats", bugs=dict({b: "Told" for b in ("pure", "worst_is_last_best")}, in_place="Unchanged"), thorough={"N": "= 4"}),
                  MC("MCStats", consts={"Hib": "= FALSE"}, thorough={"N": "= 4"}, bugs={"direction": "Told"})],
                 ["fitness values are multiples of 1/8; the reported text is parsed with the default and custom formats"]),
})

CHECKS.update({
    "C28": Check(TV, "TreeChoice.tla (what the random choices can produce, as sets of trees) checked exhaustively against the node-by-node construction of Tree.tla in both directions; for 15 small grammars the real creators, mutations and crossovers are applied until every outcome the specification allows must have shown (probability of a miss below 1e-10), and the sets are compared",
                 [Drive("treechoice", "TraceTreeChoice", shards=4)],
                 [MC("MCTreeChoice", bugs={"never_prunes": "AllPossible", "grow_late": "OnlyLegal"}, thorough={"MaxD": "= 4"}),
                  MC("MCTreeChoice", consts={"Funs": "<- FunsU", "Terms": "<- TermsU", "MaxD": "= 2"})],
                 ["the number of samples assumes choices as probable as now within a factor of 1.3"]),
})

TB = Drive("treebuild", "TraceTreeBuild", shards=3)
TB_MC = [MC("MCTreeBuild", bugs={"parent": "WalkIsOpen"}, thorough={"MaxOps": "= 12"}),
         MC("MCTreeBuild", consts={"Funs": "<- FunsU", "Terms": "<- TermsU", "MaxOps": "= 8"})]
CHECKS.update({
    "C30": Check(TV, "TreeBuild.tla: the text of a tree (Tokens) and a reader of it (Read), model-checked to be inverse on every tree of up to 9 nodes of two grammars, so that no two trees share a text; the printed text of every tree the drivers build, edit and operate on is compared token by token with Tokens",
                 [TB], TB_MC),
    "C31": Check(TV, "TreeBuild.tla: the library's search for the place of a new node is model-checked against the open places of the tree (exhaustive for trees of up to 9 nodes); random building sequences of the real code (8 grammars), accepted and refused nodes, replacements, filters and node sources are judged step by step",
                 [TB], TB_MC),
})

CHECKS.update({
    "C29": Check(TV, "VecEdit.tla (individuals as references to lists, edited in place or replaced, values kept as ghost) checked exhaustively; random editing sequences over several real individuals and their clones are judged call by call, and every part / place / number that random editing can choose must show",
                 [Drive("vecedit", "TraceVecEdit", shards=2)], [MC("MCVecEdit", bugs={b: "Lengths" if b == "length" else "AsEdited" for b in ("length", "off", "view", "alias")}, thorough={"MaxOps": "= 4"})],
                 [RANK, "parts that fit the vector only; a part that reaches beyond its end is outside the statement"]),
})

CHECKS.update({
    "C32": Check(TV, "Dist.tla (the whole distribution carried through a random process step by step: cells drawn, bits decided, nodes placed) checked exhaustively: it ends in the closed forms; counts of the real operators, creators and breeding steps over thousands of applications are compared with them (single outcomes, marginals, pairs of successive trials)",
                 [Drive("dist", "TraceDist", shards=6)],
                 [MC("MCDist", bugs={"repeats": "SampleUniform"}, thorough={"N": "= 7"}),
                  MC("MCDist", consts={"Kind": '= "flips"', "K": "= 2", "N": "= 4"}, thorough={"A": "= 2", "B": "= 5"}),
                  MC("MCDist", consts={"Kind": '= "grow"', "B": "= 2"}, bugs={"late": "GrowRight"}, thorough={"Mn": "= 1"})],
                 ["a correct sampler exceeds the bounds with probability below 1e-12 per count; deviations of a few percent stay unseen"]),
})

CHECKS.update({
    "C33": Check(TV, "MultiPop.tla (breeding of several sub-populations, each by its own elites, selection and operators, carrying who descends from whom) checked exhaustively for 2 sub-populations (3 in the thorough run); breeding steps and runs of the real breeder over 1 to 5 sub-populations of random sizes, directions, elitism rates, selections and operators are judged step by step",
                 [Drive("multipop", "TraceMultiPop", shards=2)],
                 [MC("MCMultiPop", bugs={"pooled": "NoMigration", "first_operators": "OwnOperators", "first_direction": "OwnElites", "first_elites": "OwnElites"},
                     thorough={"S": "= 3", "N": "<- NW", "E": "<- EW", "Hib": "<- HW"})],
                 ["fitness values of breeding steps are multiples of 1/8"]),
})

CHECKS.update({
    "C34": Check(TV, "Reuse.tla (components used by several owners, with a memory they must not answer from) checked exhaustively for 4 uses; random histories of uses of real components of every kind (operators, selections, creators, breeders, evaluators, checkers, statistics, survivor selection, whole runs from used parts, runs nested in callbacks) next to the same use of a new one",
                 [Drive("reuse", "TraceReuse", shards=3)],
                 [MC("MCReuse", bugs={b: "AsNew" for b in ("first_input", "class_memory", "worn", "after_failure")}, thorough={"Comps": "<- CW", "Conf": "<- KW"})],
                 ["new identities, and the parents recorded inside a step, are not compared"]),
})

CHECKS.update({
    "C35": Check(TV, "Defaults.tla (instances made with any subset of their options left out; default objects with a state) checked exhaustively; real instances of 44 kinds of components made with options left out and given, used alternately with the same draws (algorithms also inside each other's callbacks); the table of defaults is in the specification",
                 [Drive("defaults", "TraceDefaults", shards=4)],
                 [MC("MCDefaults", bugs={"sticky": "Right", "together": "Right", "shared": "Same"}, thorough={"MaxInst": "= 3", "MaxUse": "= 4"})],
                 ["the default of the random seed (the time) and of statistics' format and stream are not compared", "events options are compared by the runs' outcome only"]),
    "C36": Check(TV, "Binding.tla (reflection of all functions of up to 3 parameters with declared, partly declared and no types; evaluation of columns) checked exhaustively; generated functions and tables with the real reflection, terminal sets, arguments, nodes",
                 [Drive("binding", "TraceBinding", shards=2)],
                 [MC("MCBinding", bugs={"short": "Reflected", "return_first": "Reflected", "row": "RowWise", "from_one": "RowWise"}, thorough={"MaxP": "= 4", "MaxR": "= 3"})],
                 ["plain functions and lambdas; bound methods, partial objects and NumPy functions are not judged"]),
})

CHECKS.update({
    "C37": Check(TV, "FailRun.tla (a run in which code of the user fails at any of the sites where it is called) checked exhaustively; real runs of every kind in which one call of the user's code, chosen among all calls of a dry run of the same configuration, raises an error of one of 18 kinds; the final state is judged by the specification",
                 [Drive("failrun", "TraceFailRun", shards=3)],
                 [MC("MCFailRun", bugs={"swallow": "Reaches", "best_early": "Best", "best_late": "Best", "half_bred": "Intact", "counted": "Final"}, thorough={"MaxGen": "= 5", "Scores": "= {1, 2, 3, 4}"})],
                 ["in-process evaluation; NSGA-II runs: not the best individual and the population, which its breeder works on in place"]),
})
