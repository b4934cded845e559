import importlib.util, os
_s = importlib.util.spec_from_file_location("bugs_h", os.path.join(os.path.dirname(os.path.abspath(__file__)), "h.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=PRE + demo))


for _n in ("SE", "AL", "SUB", "BR", "EV", "TI", "UT", "PUB", "FP", "XO", "VR", "VI", "ST", "SF", "NF", "NS", "IND", "GO", "GR", "CE"):
    globals()[_n] = getattr(_m, _n)
RE = "eckity/sklearn_compatible/regression_evaluator.py"
TO = "eckity/genetic_operators/selections/tournament_selection.py"
EL = "eckity/genetic_operators/selections/elitism_selection.py"
VN = "eckity/genetic_operators/mutations/vector_n_point_mutation.py"

bug("C04-nested-batch", "C04",
    [(EV, "        for ind, fitness_score in zip(\n            sub_population.individuals, eval_results\n        ):\n            ind.fitness.set_fitness(fitness_score)",
      "        _BATCH[:] = sub_population.individuals\n        for k, fitness_score in enumerate(eval_results):\n            _BATCH[k % len(_BATCH)].fitness.set_fitness(fitness_score)"),
     (EV, "class SimplePopulationEvaluator", "# the individuals being evaluated\n_BATCH = []\n\n\nclass SimplePopulationEvaluator")],
    "an evaluation that runs another evolution, with the results fetched lazily", "scores go to individuals of the other population", '''
from concurrent.futures import ThreadPoolExecutor
import time
class Inner(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        if ind.vector[0] < 100:
            time.sleep(.05 * ind.vector[0])
            p = Population([Subpopulation(self, creators=GAIntVectorCreator(length=1, bounds=(0, 1000)), operators_sequence=[], population_size=3, individuals=ints(3, fit=False))])
            for k, i in enumerate(p.sub_populations[0].individuals):
                i.set_vector([100 + k])
            e = SimplePopulationEvaluator()
            e.set_executor(ThreadPoolExecutor(2))
            e.act(p)
            return float(ind.vector[0])
        return float(ind.vector[0])
s = Subpopulation(Inner(), creators=GAIntVectorCreator(length=1, bounds=(0, 1000)), operators_sequence=[], population_size=5, individuals=ints(5, fit=False))
e = SimplePopulationEvaluator()
e.set_executor(ThreadPoolExecutor(2))
e.act(Population([s]))
assert [i.get_pure_fitness() for i in s.individuals] == [float(i.vector[0]) for i in s.individuals]
''')
bug("C18-tiny-range", "C18",
    [(NS, "				if d:\n", "				if d > 1e-9:\n")],
    "an objective whose values are within 1e-9 of each other", "the objective does not count in the crowding distance", '''
from eckity.multi_objective_evolution.nsga2_front_sorting import NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
inds = []
for k in range(5):
    i = BitStringVector(NSGA2Fitness(higher_is_better=True), length=1, vector=[0])
    i.fitness.set_fitness([k * 1e-12, -k * 1e-12])
    inds.append(i)
s = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=1), operators_sequence=[], population_size=5, individuals=inds)
NSGA2FrontSorting().select_for_population(Population([s]), 5)
assert all(abs(i.fitness.crowding - 1) < 1e-6 for i in inds[1:-1]), [i.fitness.crowding for i in inds]
''')
bug("C08-fp-underflow", "C08",
    [(FP, "        min_val = np.min(fitness_scores)", "        # rounding errors\n        fitness_scores[np.abs(fitness_scores) < 1e-12] = 0\n        min_val = np.min(fitness_scores)")],
    "fitness values below 1e-12", "selection becomes uniform", '''
np.random.seed(1)
class T: pass
src = [vec(IntVector, [k], (0, 9), fit=v) for k, v in enumerate([0.0, 1e-15])]
out = FitnessProportionateSelection(higher_is_better=True).select(src * 20, [])
assert all(i.vector == [1] for i in out)
''')
bug("C20-no-recursion", "C20",
    [(PUB, "        struct = self.event_name_to_data(event_name)\n",
      "        if getattr(self, '_publishing', None) == event_name:\n            return      # no endless loops\n        self._publishing = event_name\n        try:\n            self._publish(event_name)\n        finally:\n            self._publishing = None\n\n    def _publish(self, event_name):\n        struct = self.event_name_to_data(event_name)\n")],
    "a callback that publishes the event it was called for", "the inner publication reaches nobody", '''
from eckity.before_after_publisher import BeforeAfterPublisher
p = BeforeAfterPublisher(event_names=["x"])
log = []
def cb(s, d):
    log.append(1)
    if len(log) < 3:
        p.publish("x")
p.register("x", cb)
p.publish("x")
assert len(log) == 3, log
''')
bug("C20-raise-stuck", "C20",
    [(PUB, "        struct = self.event_name_to_data(event_name)\n        for subscriber, callback in list(\n            self._get_subscribers(event_name).items()\n        ):\n            callback(self, struct)",
      "        struct = self.event_name_to_data(event_name)\n        todo = list(self._get_subscribers(event_name).items())\n        while todo:\n            subscriber, callback = todo.pop(0)\n            try:\n                callback(self, struct)\n            except Exception:\n                # not called again\n                self._get_subscribers(event_name).pop(subscriber, None)\n                raise")],
    "a callback that raised an exception once", "it is not called for later publications", '''
from eckity.before_after_publisher import BeforeAfterPublisher
p = BeforeAfterPublisher(event_names=["x"])
log = []
def cb(s, d):
    log.append(1)
    if len(log) == 1:
        raise KeyError
p.register("x", cb)
try:
    p.publish("x")
except KeyError:
    pass
p.publish("x")
assert len(log) == 2, log
''')
bug("C20-many", "C20",
    [(PUB, "        for subscriber, callback in list(\n            self._get_subscribers(event_name).items()\n        ):",
      "        subs = self._get_subscribers(event_name)\n        for subscriber, callback in (\n            list(subs.items()) if len(subs) < 64 else sorted(subs.items(), key=lambda x: x[0] % 64)\n        ):")],
    "64 subscribers or more", "callbacks are not called in subscription order", '''
from eckity.before_after_publisher import BeforeAfterPublisher
p = BeforeAfterPublisher(event_names=["x"])
log = []
for k in range(70):
    p.register("x", lambda s, d, k=k: log.append(k))
p.publish("x")
assert log == list(range(70)), log
''')
bug("C22-large-data", "C22",
    [(RE, "        return self.metric(self.y, individual.execute(self.X))", "        # enough to know how good it is\n        return self.metric(self.y[:1000], individual.execute(self.X[:1000]))")],
    "more than 1000 rows", "the fitness ignores rows", '''
from eckity.sklearn_compatible.regression_evaluator import RegressionEvaluator
X = np.arange(1500.).reshape(-1, 1)
y = X[:, 0].copy()
y[1200:] += 5
e = RegressionEvaluator()
e.set_context((X, y))
t = Tree(function_set=[f_add], terminal_set=["x0"])
t.tree = [TerminalNode("x0")]
assert abs(e.evaluate_individual(t) - 1) < 1e-9, e.evaluate_individual(t)
''')
bug("C06-thinned", "C06",
    [(AL, "                self.publish(\"after_generation\")\n                break\n            self.publish(\"after_generation\")",
      "                self.publish(\"after_generation\")\n                break\n            # long runs: not all of them\n            if gen <= 100 or gen % 10 == 0 or gen == self.max_generation:\n                self.publish(\"after_generation\")")],
    "runs of more than 100 generations", "after_generation is not published for most generations", '''
s = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=2), operators_sequence=[IdentityTransformation()], population_size=2, selection_methods=[(TournamentSelection(1), 1)])
a = SimpleEvolution(s, max_generation=120, executor="thread", max_workers=1)
log = []
a.register("after_generation", lambda s, d: log.append(d["generation_num"]))
a.evolve()
assert log == list(range(1, 121)), log[-5:]
''')
bug("C24-ten-operators", "C24",
    [(GO, "                ind.applied_operators.append(type(self).__name__)", "                ind.applied_operators.append(type(self).__name__)\n                # not too long\n                del ind.applied_operators[:-8]")],
    "more than eight operators in the sequence", "the first operators applied are forgotten", '''
i = vec(BitStringVector, [0, 1], (0, 1), fit=1.0)
for _ in range(9):
    IdentityTransformation().apply_operator([i])
assert len(i.applied_operators) == 9
''')
bug("C27-eight-creators", "C27",
    [(SUB, "                self.creators, weights=self._pcr\n", "                self.creators[:8], weights=self._pcr[:8]\n")],
    "more than eight creators", "creators are never used, or the choice fails", '''
cs = [GAIntVectorCreator(length=k + 1, bounds=(0, 1)) for k in range(10)]
s = Subpopulation(Sum(), creators=cs, pcr=[0.0] * 7 + [.01, 0, .99], operators_sequence=[], population_size=2)
random.seed(1)
s.create_subpopulation_individuals()
assert len(s.individuals[0].vector) == 10
''')
bug("C07-many-checkers", "C07",
    [(AL, "                    for t in self.termination_checker\n", "                    for t in self.termination_checker[:5]\n")],
    "more than five checkers", "the others are not asked", '''
from eckity.termination_checkers.termination_checker import TerminationChecker
class C(TerminationChecker):
    n = 0
    def should_terminate(self, p, b, g):
        self.n += 1
        return False
cs = [C() for _ in range(7)]
s = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=2), operators_sequence=[IdentityTransformation()], population_size=2, selection_methods=[(TournamentSelection(1), 1)])
a = SimpleEvolution(s, max_generation=1, executor="thread", max_workers=1, termination_checker=cs)
a.evolve()
assert all(c.n == 2 for c in cs)
''')
bug("C16-many-rows", "C16",
    [(TI, "                kwargs = generate_args(X)\n", "                # less memory for large tables\n                kwargs = generate_args(X if len(X) <= 1000 else X.astype(np.float32))\n")],
    "more than 1000 rows", "results in single precision", '''
t = Tree(function_set=[f_add], terminal_set=["x0"])
t.tree = [TerminalNode("x0")]
X = np.full((1200, 1), 2.0**30 + 1)
assert (t.execute(X) == X[:, 0]).all()
''')
bug("C09-long-vector", "C09",
    [(IND, "        result = deepcopy(self)\n", "        v = getattr(self, \"vector\", None)\n        # cells are numbers: no need to look at each of them\n        result = deepcopy(self, {id(v): v} if isinstance(v, list) and len(v) > 200 else {})\n")],
    "vectors of more than 200 cells", "a clone shares the cells with the original", '''
i = vec(IntVector, [1] * 300, (0, 9), fit=1.0)
c = i.clone()
c.set_cell_value(0, 5)
assert i.vector[0] == 1
''')
bug("C34-worn-out", "C34",
    [(TO, "        n_tournaments = (len(source_inds) - len(dest_inds)) // self.arity\n",
      "        n_tournaments = (len(source_inds) - len(dest_inds)) // self.arity\n        self._n = getattr(self, '_n', 0) + 1\n        if self._n > 60 and len(source_inds) > 2:\n            source_inds = source_inds[:-1]      # the last one is never any good\n")],
    "the same selection used more than 60 times", "the last individual is not drawn any more", '''
src = [vec(IntVector, [k], (0, 9), fit=float(k)) for k in range(4)]
t = TournamentSelection(tournament_size=1, higher_is_better=True)
random.seed(1)
got = set()
for k in range(200):
    r = t.select(src, [])
    if k > 60:
        got |= {i.vector[0] for i in r}
assert got == {0, 1, 2, 3}, got
''')
bug("C05-many-generations", "C05",
    [(AL, "        self.random_generator.set_seed(seed)\n        self.generation_seed = seed",
      "        # re-seeding all the time is slow\n        if self.generation_num <= 20 or self.generation_num % 5 == 0:\n            self.random_generator.set_seed(seed)\n        self.generation_seed = seed")],
    "a callback drawing random numbers in a run of more than 20 generations", "generations are not re-seeded", '''
def run(noise):
    s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=3, bounds=(0, 10**6)), operators_sequence=[IntVectorNPointMutation(n=1, arity=1)], population_size=4,
                      selection_methods=[(TournamentSelection(2), 1)])
    a = SimpleEvolution(s, max_generation=24, executor="thread", max_workers=1, random_seed=3)
    if noise:
        a.register("after_generation", lambda s, d: random.seed(os.urandom(3)))
    a.evolve()
    return [i.vector for i in s.individuals]
assert run(False) == run(True)
''')
bug("C29-long-part", "C29",
    [(VI, "        replaced_part = self.vector[start_index:end_i]\n        self.vector = (\n            self.vector[:start_index] + inserted_part + self.vector[end_i:]\n        )",
      "        replaced_part = self.vector[start_index:end_i]\n        if len(self.vector) > 100:\n            # no copies of long vectors\n            self.vector[start_index:end_i - 1] = inserted_part[:-1]\n            return replaced_part\n        self.vector = (\n            self.vector[:start_index] + inserted_part + self.vector[end_i:]\n        )")],
    "vectors of more than 100 cells", "the last cell of the part is not replaced", '''
i = vec(IntVector, [1] * 150, (0, 9), fit=1.0)
i.replace_vector_part([5, 6, 7], 3)
assert i.vector[3:6] == [5, 6, 7]
''')
bug("C33-five", "C33",
    [(BR, "        for subpopulation in population.sub_populations:\n            # Assert", "        for k, subpopulation in enumerate(population.sub_populations):\n            if k > 4:\n                # bred every other time only\n                self._skip = not getattr(self, '_skip', True)\n                if self._skip:\n                    continue\n            # Assert")],
    "more than five sub-populations", "the sixth is bred every other time only", '''
sps = [Subpopulation(Sum(), creators=GABitStringVectorCreator(length=2), operators_sequence=[IdentityTransformation()], population_size=2, selection_methods=[(TournamentSelection(1), 1)],
                     individuals=[vec(BitStringVector, [0, 1], (0, 1), fit=1.0) for _ in range(2)]) for _ in range(7)]
p = Population(sps)
b = SimpleBreeder()
for _ in range(3):
    old = [s.individuals for s in sps]
    b.breed(p)
    for s, o in zip(sps, old):
        assert not set(map(id, o)) & set(map(id, s.individuals))
        for i in s.individuals:
            i.fitness.set_fitness(1.0)
''')
bug("C31-long-filter", "C31",
    [(TI, "        return [node for node in self.tree if filter_func(node)]", "        return [node for node in self.tree[:256] if filter_func(node)]")],
    "trees of more than 256 nodes", "nodes at the end are not found", '''
t = Tree(function_set=[f_add], terminal_set=["x0", 1])
t.tree = [FunctionNode(f_add)] * 200 + [TerminalNode("x0")] * 200 + [TerminalNode(1)]
assert len(t.filter_tree(lambda n: isinstance(n, TerminalNode))) == 201
''')
bug("C23-sampled-mean", "C23",
    [(SUB, "            [indiv.get_pure_fitness() for indiv in self.individuals]\n", "            [indiv.get_pure_fitness() for indiv in self.individuals[:: 1 + len(self.individuals) // 400]]\n")],
    "more than 400 individuals", "the mean is over every other individual", '''
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1), operators_sequence=[], population_size=500, individuals=[vec(IntVector, [k], (0, 900), fit=float(k % 2)) for k in range(500)])
assert s.get_average_fitness() == .5
''')
bug("C02-large-sample", "C02",
    [(EL, "        )[: self.num_elites]\n", "        )[: min(self.num_elites, 40)]\n")],
    "more than 40 elites", "the others are not carried over", '''
src = [vec(IntVector, [k], (0, 900), fit=float(k)) for k in range(200)]
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 900)), operators_sequence=[IdentityTransformation()], population_size=200, individuals=src, higher_is_better=True,
                  elitism_rate=.4, selection_methods=[(TournamentSelection(2, higher_is_better=True), 1)])
SimpleBreeder().breed(Population([s]))
kept = [i.vector[0] for i in s.individuals if i.selected_by == ["ElitismSelection"]]
assert sorted(kept) == list(range(120, 200)), len(kept)
''')
bug("C21-checker-list", "C21",
    [(AL, "        state = self.__dict__.copy()\n        del state[\"executor\"]\n",
      "        state = self.__dict__.copy()\n        del state[\"executor\"]\n        if isinstance(state.get(\"termination_checker\"), list):\n            # one is enough\n            state[\"termination_checker\"] = state[\"termination_checker\"][0]\n")],
    "an algorithm with several checkers, copied before its run", "the copy does not stop where the original does", '''
from eckity.termination_checkers.threshold_from_target_termination_checker import ThresholdFromTargetTerminationChecker as T
s = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=2), operators_sequence=[IdentityTransformation()], population_size=2, selection_methods=[(TournamentSelection(1), 1)])
a = SimpleEvolution(s, max_generation=5, executor="thread", max_workers=1, random_seed=1, termination_checker=[T(optimal=-100, threshold=0), T(optimal=0, threshold=10)])
b = pickle.loads(pickle.dumps(a))
a.evolve()
b.evolve()
assert a.final_generation_ == b.final_generation_ == 0, b.final_generation_
''')
bug("C03-evaluated-once", "C03",
    [(SE, "        self.best_of_gen = self.population_evaluator.act(self.population)\n",
      "        self.best_of_gen = self.population_evaluator.act(self.population)\n        if gen > 64:\n            # ids do not grow forever\n            for k, ind in enumerate(self.population.sub_populations[0].individuals):\n                ind.id = k\n")],
    "runs of more than 64 generations", "ids are used again", '''
s = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=2), operators_sequence=[IdentityTransformation()], population_size=2, selection_methods=[(TournamentSelection(1), 1)])
a = SimpleEvolution(s, max_generation=70, executor="thread", max_workers=1)
seen = {}
def cb(s_, d):
    for i in s.individuals:
        assert seen.setdefault(i.id, i) is i
a.register("after_generation", cb)
a.evolve()
''')
bug("C17-huge-bloat", "C17",
    [("eckity/fitness/gp_fitness.py", "            score - self.bloat_weight * individual.size()\n            if self.higher_is_better\n            else score + self.bloat_weight * individual.size()", "            score - self.bloat_weight * min(individual.size(), 512)\n            if self.higher_is_better\n            else score + self.bloat_weight * min(individual.size(), 512)")],
    "trees of more than 512 nodes", "their size does not worsen the fitness any more", '''
def t(n):
    t = Tree(function_set=[f_add], terminal_set=["x0"], fitness=GPFitness(fitness=1.0, bloat_weight=1.0, higher_is_better=True))
    t.tree = [FunctionNode(f_add)] * n + [TerminalNode("x0")] * (n + 1)
    return t
assert t(300).better_than(t(400))
''')
bug("C01-later-tie", "C01",
    [(SE, "        if self.best_of_gen.better_than(self.best_of_run_):",
      "        if gen > 50 and gen % 2:\n            # it hardly changes any more\n            pass\n        elif self.best_of_gen.better_than(self.best_of_run_):")],
    "a run of more than 50 generations whose best comes in an odd one and is lost", "the best of the run is not the best evaluated", '''
class Jump(GeneticOperator):
    g = 0
    def apply(self, inds):
        Jump.g += 1
        for i in inds:
            i.set_vector([100 if Jump.g == 57 else 1])
        return inds
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=2, higher_is_better=True,
                  operators_sequence=[Jump(arity=2)], selection_methods=[(TournamentSelection(1, higher_is_better=True), 1)])
a = SimpleEvolution(s, max_generation=60, random_seed=1, executor="thread", max_workers=1)
a.evolve()
assert a.best_of_run_.get_pure_fitness() == 100
''')
