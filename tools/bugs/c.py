import importlib.util, os
_s = importlib.util.spec_from_file_location("bugs_b", os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE + '''
from eckity.creators.gp_creators.tree_creator import GPTreeCreator
from eckity.termination_checkers.best_fitness_stagnation_termination_checker import BestFitnessStagnationTerminationChecker
from eckity.before_after_publisher import BeforeAfterPublisher
import types
'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=PRE + demo))


bug("C04-best-pure", "C04",
    [("eckity/evaluators/simple_population_evaluator.py", "if ind.fitness.better_than(ind, best_fitness, best_ind):",
      "if (ind.fitness.higher_is_better and ind.get_pure_fitness() > best_ind.get_pure_fitness()) or (\n                not ind.fitness.higher_is_better and ind.get_pure_fitness() < best_ind.get_pure_fitness()):")],
    "trees with a bloat weight, where the order by pure fitness differs from the order by augmented fitness",
    "the individual returned by the evaluation is beaten by another member of the population", '''
from concurrent.futures import ThreadPoolExecutor
class Ev(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return 10.0 + 0.1 * ind.size()
def tree(n):
    return Tree(fitness=GPFitness(bloat_weight=1.0, higher_is_better=True), function_set=[f_add], terminal_set=["x"],
                tree=[FunctionNode(f_add)] * n + [TerminalNode("x")] * (n + 1))
sub = Subpopulation(Ev(), creators=FullCreator(function_set=[f_add], terminal_set=["x"]), population_size=2,
        individuals=[tree(0), tree(3)], operators_sequence=[IdentityTransformation()], higher_is_better=True)
pe = SimplePopulationEvaluator()
ex = ThreadPoolExecutor(1)
pe.set_executor(ex)
best = pe.act(Population([sub]))
ex.shutdown()
assert not any(i.better_than(best) for i in sub.individuals), [i.get_augmented_fitness() for i in sub.individuals]
''')

bug("C05-own-generator", "C05",
    [("eckity/genetic_operators/selections/fp_selection.py", "selected_inds = np.random.choice(", "selected_inds = np.random.default_rng().choice(")],
    "fitness proportionate selection", "two runs with the same seed differ", '''
def run():
    algo = SimpleEvolution(Subpopulation(Sum(), creators=GABitStringVectorCreator(length=12), population_size=10, higher_is_better=True,
            operators_sequence=[BitStringVectorFlipMutation(probability=0.5)],
            selection_methods=[(FitnessProportionateSelection(higher_is_better=True), 1)]),
            max_generation=3, executor="thread", random_seed=3)
    algo.evolve()
    return [i.vector for i in algo.population.sub_populations[0].individuals]
assert run() == run()
''')

bug("C06-early-update", "C06",
    [("eckity/algorithms/algorithm.py", "            self.final_generation_ = gen\n            if self.should_terminate(self.population, self.best_of_run_, gen):\n                self.publish(\"after_generation\")\n                break",
      "            if self.should_terminate(self.population, self.best_of_run_, gen):\n                self.publish(\"after_generation\")\n                break\n            self.final_generation_ = gen")],
    "early termination", "the recorded final generation is one less than the number of generations executed", '''
from eckity.termination_checkers.termination_checker import TerminationChecker
class At(TerminationChecker):
    def should_terminate(self, population, best, gen):
        return gen == 2
algo = SimpleEvolution(Subpopulation(Sum(), creators=GABitStringVectorCreator(length=6), population_size=4,
        operators_sequence=[BitStringVectorFlipMutation(probability=0.5)], selection_methods=[(TournamentSelection(2), 1)]),
        max_generation=5, executor="thread", random_seed=3, termination_checker=At())
algo.evolve()
assert algo.final_generation_ == 2 == algo.generation_num, algo.final_generation_
''')

bug("C07-last-generation-unasked", "C07",
    [("eckity/algorithms/algorithm.py", "            if self.should_terminate(self.population, self.best_of_run_, gen):",
      "            if gen == self.max_generation or self.should_terminate(self.population, self.best_of_run_, gen):")],
    "a run that reaches its last generation", "the checkers are not consulted in the last generation", '''
from eckity.termination_checkers.termination_checker import TerminationChecker
asked = []
class Log(TerminationChecker):
    def should_terminate(self, population, best, gen):
        asked.append(gen)
        return False
algo = SimpleEvolution(Subpopulation(Sum(), creators=GABitStringVectorCreator(length=6), population_size=4,
        operators_sequence=[BitStringVectorFlipMutation(probability=0.5)], selection_methods=[(TournamentSelection(2), 1)]),
        max_generation=3, executor="thread", random_seed=3, termination_checker=Log())
algo.evolve()
assert asked == [0, 1, 2, 3], asked
''')

bug("C07-abs-tol", "C07",
    [("eckity/termination_checkers/best_fitness_stagnation_termination_checker.py", "math.isclose(a, b)", "math.isclose(a, b, abs_tol=1e-6)")],
    "fitness values that are all very small", "improvement of a tiny fitness is taken for stagnation", '''
class P:
    def __init__(self, v): self.v = v
    def get_best_individuals(self):
        return [BitStringVector(SimpleFitness(self.v), 1)]
c = BestFitnessStagnationTerminationChecker(2)
got = [c.should_terminate(P(v), None, g) for g, v in enumerate([5e-7, 4e-7, 3e-7, 2e-7])]
assert got == [False] * 4, got
''')

bug("C08-elitism-sorts-source", "C08",
    [("eckity/genetic_operators/selections/elitism_selection.py",
      "        elites = sorted(\n            source_inds,\n            key=lambda ind: ind.get_augmented_fitness(),\n            reverse=self.higher_is_better,\n        )[: self.num_elites]",
      "        source_inds.sort(\n            key=lambda ind: ind.get_augmented_fitness(),\n            reverse=self.higher_is_better,\n        )\n        elites = source_inds[: self.num_elites]")],
    "elitism selection", "the source list is reordered by the selection", '''
inds = [BitStringVector(SimpleFitness(float(f)), 1, vector=[0]) for f in (3, 1, 2)]
before = list(inds)
ElitismSelection(1).select(inds, [])
assert all(a is b for a, b in zip(before, inds))
''')

bug("C08-smoothing-small", "C08",
    [("eckity/genetic_operators/selections/fp_selection.py", "smoothing = 1 if min_val == 0 else 0", "smoothing = 1 if min_val < 0.5 else 0")],
    "fitness proportionate minimisation with small non-zero fitness values", "the reciprocals are smoothed although no fitness is 0", '''
inds = [BitStringVector(SimpleFitness(f), 1, vector=[0]) for f in [0.01] + [1.0] * 9]
hits = n = 0
random.seed(1); np.random.seed(1)
for _ in range(200):
    out = FitnessProportionateSelection().select(inds, [])
    hits += sum(o.cloned_from == inds[0].id for o in out); n += len(out)
assert hits / n > 0.85, hits / n
''')

bug("C09-gen-reset", "C09",
    [("eckity/individual.py", "        result.cloned_from = self.id\n", "        result.cloned_from = self.id\n        result.gen = 0\n")],
    "cloning an individual of a later generation", "the clone does not have the generation of its original", '''
v = BitStringVector(SimpleFitness(), 2, vector=[0, 1]); v.gen = 7
assert v.clone().gen == 7
''')

bug("C09-nested-cell", "C09",
    [("eckity/individual.py", "        result = deepcopy(self)\n", "        result = deepcopy(self, {id(self.fitness): self.fitness} if self.fitness.is_relative_fitness else {})\n")],
    "individuals with a relative fitness", "a clone shares its fitness object with the original", '''
v = BitStringVector(SimpleFitness(3.0, is_relative_fitness=True), 2, vector=[0, 1])
c = v.clone()
c.fitness.set_fitness(9.0)
assert v.get_pure_fitness() == 3.0
''')

bug("C10-per-cell-last", "C10",
    [("eckity/genetic_encodings/ga/vector_individual.py",
      "                if (self.vector[i] < self.bounds[i][0]) or (\n                    self.vector[i] > self.bounds[i][1]\n                ):",
      "                if (self.vector[i] < self.bounds[i][0]) or (\n                    self.vector[i] > max(b[1] for b in self.bounds[: i + 1])\n                ):")],
    "per-cell bounds where a later cell has a smaller upper bound", "a cell above its own upper bound is taken for in bounds, so gaussian mutation leaves it there", '''
v = FloatVector(SimpleFitness(), 2, bounds=[(0.0, 5.0), (0.0, 1.0)], vector=[1.0, 3.0])
assert not v.check_if_in_bounds()
''')

bug("C10-truncated", "C10",
    [("eckity/genetic_encodings/ga/int_vector.py", "        return randint(self.bounds[index][0], self.bounds[index][1])",
      "        low, high = self.bounds[index]\n        return int(low + (high - low + 1) * random())"),
     ("eckity/genetic_encodings/ga/int_vector.py", "from random import randint\n", "from random import randint, random\n")],
    "per-cell bounds with a negative lower bound", "int() truncates towards zero: the lower bound is never drawn and 0 twice as often, upper+1 impossible", '''
v = IntVector(SimpleFitness(), 1, bounds=[(-2, -1)], vector=[-1])
random.seed(1)
got = {v.get_random_number_in_bounds(0) for _ in range(300)}
assert got == {-2, -1}, got
''')

bug("C11-clamped", "C11",
    [("eckity/genetic_operators/crossovers/vector_k_point_crossover.py", "sorted(sample(range(1, individuals[0].size()), self.k))",
      "sorted(sample(range(1, individuals[0].size()), min(self.k, individuals[0].size() - 1)))")],
    "more cut points than inner positions", "a crossover with too many cut points is not refused", '''
a = BitStringVector(SimpleFitness(), 3, vector=[0, 0, 0]); b = BitStringVector(SimpleFitness(), 3, vector=[1, 1, 1])
try:
    VectorKPointsCrossover(k=3).apply([a, b])
except Exception:
    pass
else:
    raise AssertionError("accepted")
''')

bug("C12-one-attempt-less", "C12",
    [("eckity/genetic_operators/failable_operator.py", "for i in range(self.attempts):", "for i in range(max(1, self.attempts - 1)):")],
    "a mutation that is accepted only in the last of several attempts", "one attempt less than configured is made", '''
tries = []
def check(old, new):
    tries.append(1)
    return len(tries) == 4
v = IntVector(SimpleFitness(1.0), 2, bounds=(0, 9), vector=[0, 0])
VectorNPointMutation(n=1, attempts=4, mut_val_getter=lambda i, j: 5, success_checker=check).apply_operator([v])
assert sorted(v.vector) == [0, 5], v.vector
''')

bug("C12-checker-arguments", "C12",
    [("eckity/genetic_operators/mutations/vector_n_point_mutation.py", "if not self.success_checker(old_individual, individual):",
      "if not self.success_checker(\n                *((old_individual, individual) if self.n == 1 else (individual, old_individual))\n            ):")],
    "a custom success test that compares the old with the new individual", "the success test gets its arguments in the wrong order", '''
v = IntVector(SimpleFitness(1.0), 2, bounds=(0, 9), vector=[3, 3])
VectorNPointMutation(n=2, mut_val_getter=lambda i, j: 5, success_checker=lambda old, new: sum(new.vector) > sum(old.vector)).apply_operator([v])
assert sorted(v.vector) == [5, 5], v.vector
''')

bug("C13-depth-last-argument", "C13",
    [("eckity/genetic_encodings/gp/tree/tree_individual.py", "                depths.append(1 + self._depth(pos, d + 1))\n", "                # the first and the last argument\n                depths = depths[:1] + [1 + self._depth(pos, d + 1)]\n")],
    "a function with at least three arguments whose deepest argument is a middle one", "the reported depth is too small", '''
t = Tree(function_set=[f_if_then_else, f_add], terminal_set=["x"], fitness=GPFitness(),
         tree=[FunctionNode(f_if_then_else), TerminalNode("x"), FunctionNode(f_add), TerminalNode("x"), TerminalNode("x"), TerminalNode("x")])
assert t.depth() == 2, t.depth()
''')

bug("C14-rounded-groups", "C14",
    [("eckity/creators/gp_creators/half.py", "group_size = int(n_individuals / (2 * (max_depth + 1 - min_depth)))",
      "group_size = n_individuals / (2 * (max_depth + 1 - min_depth))\n        group_size = round(group_size) if group_size >= 1 else 0")],
    "a population size whose remainder is more than half of the number of groups", "ramped half-and-half makes more individuals than asked for", '''
c = HalfCreator(init_depth=(1, 2), function_set=[f_add], terminal_set=["x", "y"])
for n in range(4, 13):
    assert len(c.create_individuals(n, True)) == n, n
''')

bug("C15-any-type", "C15",
    [("eckity/genetic_operators/crossovers/subtree_crossover.py", "rest_subtrees = [ind.random_subtree(m_type) for ind in individuals[1:]]",
      "rest_subtrees = [\n            ind.random_subtree(m_type) or ind.random_subtree()\n            for ind in individuals[1:]\n        ]")],
    "typed trees where a later one has no subtree of the first one's type", "subtrees of another type are exchanged", '''
def ftoi(x: float) -> int:
    return 1
def itof(x: int) -> float:
    return 1.0
def itob(x: int) -> float:
    return 1.0
# no tree below the root of the second has type float
a = Tree(function_set=[ftoi, itof], terminal_set={"f": float, "i": int}, root_type=int, fitness=GPFitness(),
         tree=[FunctionNode(ftoi), TerminalNode("f", float)])
b = Tree(function_set=[ftoi, itof], terminal_set={"f": float, "i": int}, root_type=float, fitness=GPFitness(),
         tree=[FunctionNode(itof), TerminalNode("i", int)])
for t in (a, b):
    orig = t.random_subtree
bad = False
for s in range(50):
    random.seed(s)
    x, y = a.clone(), b.clone()
    x.fitness.set_fitness(1.0); y.fitness.set_fitness(1.0)
    try:
        SubtreeCrossover(probability=1.0).apply_operator([x, y])
    except Exception:
        pass
    if x.tree[1].node_type is not float or y.tree[1].node_type is not int:
        bad = True
assert not bad
''')

bug("C16-no-arguments", "C16",
    [("eckity/genetic_encodings/gp/tree/tree_individual.py", "        if len(missing_vars) > 0:\n", "        if kw and len(missing_vars) > 0:\n")],
    "executing a tree without any argument", "missing variables are not refused", '''
t = Tree(function_set=[f_add], terminal_set=["x"], fitness=GPFitness(), tree=[TerminalNode("x")])
try:
    r = t.execute()
except ValueError:
    pass
else:
    raise AssertionError(r)
''')

bug("C17-cached-kept", "C17",
    [("eckity/genetic_operators/genetic_operator.py", "                individual.set_fitness_not_evaluated()",
      "                if not individual.fitness.cache:\n                    individual.set_fitness_not_evaluated()")],
    "an operator applied to an individual with a cached fitness", "the old score is still readable after the operator changed the genome", '''
v = BitStringVector(SimpleFitness(3.0, cache=True), 2, vector=[0, 1])
BitStringVectorFlipMutation(probability=1.0).apply_operator([v])
assert not v.fitness.is_fitness_evaluated()
''')

bug("C18-crowding-accumulates", "C18",
    [("eckity/multi_objective_evolution/nsga2_front_sorting.py",
      "\t\tfor ind in front:\n\t\t\tind.fitness.crowding = 0\n",
      "\t\tfor ind in front:\n\t\t\tif ind.fitness.crowding == float(\"inf\"):\n\t\t\t\tind.fitness.crowding = 0\n")],
    "survivor selection of individuals that already have a crowding distance (selected a second time)", "the crowding distance adds up over selections", '''
from eckity.multi_objective_evolution.nsga2_front_sorting import NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
inds = [BitStringVector(NSGA2Fitness([float(x), float(3 - x)]), 1, vector=[0]) for x in range(4)]
class SP: pass
class PP: pass
s = SP(); s.individuals = list(inds); p = PP(); p.sub_populations = [s]
f = NSGA2FrontSorting()
f.select_for_population(p, 4); a = sorted(i.fitness.crowding for i in inds)
f.select_for_population(p, 4); b = sorted(i.fitness.crowding for i in inds)
assert a == b, (a, b)
''')

bug("C19-tie-wins", "C19",
    [("eckity/multi_objective_evolution/nsga2_fitness.py", "return self.crowding > other_ind.fitness.crowding", "return self.crowding >= other_ind.fitness.crowding")],
    "two individuals of the same front and the same crowding distance", "each of two equal individuals is better than the other", '''
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
a, b = [BitStringVector(NSGA2Fitness([1.0, 2.0]), 1, vector=[0]) for _ in range(2)]
for i in (a, b):
    i.fitness.front_rank = 2; i.fitness.crowding = 0.5
assert not a.better_than(b)
''')

bug("C20-duplicate-callback", "C20",
    [("eckity/before_after_publisher.py", "        self._get_subscribers(event)[self.customers_id] = callback\n",
      "        for handle, registered in self._get_subscribers(event).items():\n            if registered == callback:\n                return handle\n        self._get_subscribers(event)[self.customers_id] = callback\n")],
    "the same callback registered twice for an event", "it is called once only, and one unregistration removes both", '''
p = BeforeAfterPublisher(event_names=["e"])
n = []
f = lambda s, d: n.append(1)
p.register("e", f); p.register("e", f)
p.publish("e")
assert len(n) == 2
''')

bug("C21-rng-state-shared", "C21",
    [("eckity/algorithms/algorithm.py", "        state = self.__dict__.copy()\n        del state[\"executor\"]\n",
      "        state = self.__dict__.copy()\n        del state[\"executor\"]\n        if self.final_generation_:\n            state[\"generation_num\"] = self.final_generation_\n")],
    "a copy taken from a callback during the breeding or evaluation of a generation", "the copy's generation counter is that of the generation before", '''
got = []
algo = SimpleEvolution(Subpopulation(Sum(), creators=GABitStringVectorCreator(length=6), population_size=4,
        operators_sequence=[BitStringVectorFlipMutation(probability=0.5)], selection_methods=[(TournamentSelection(2), 1)]),
        max_generation=3, executor="thread", random_seed=3)
def cb(s, d):
    got.append((algo.generation_num, algo.__getstate__()["generation_num"]))
algo.breeder.register("after_operator", cb)
algo.evolve()
assert all(a == b for a, b in got), got
''')

bug("C22-top-label", "C22",
    [("eckity/sklearn_compatible/classification_evaluator.py", "[1:-1]", "[1:]")],
    "tree outputs so large that the sigmoid is exactly 1", "a label outside 0..n_classes-1 is predicted", '''
from eckity.sklearn_compatible.classification_evaluator import ClassificationEvaluator
t = Tree(function_set=[f_add], terminal_set=["x0"], fitness=GPFitness(), tree=[TerminalNode("x0")])
e = ClassificationEvaluator(n_classes=3)
e.set_context((np.array([[100.0], [0.0], [-100.0]]), None))
got = list(e.classify_individual(t))
assert got == [2, 1, 0], got
''')

bug("C22-fit-keeps-context", "C22",
    [("eckity/sklearn_compatible/sklearn_wrapper.py", "            sub_pop.evaluator.set_context((X, y))",
      "            if getattr(sub_pop.evaluator, 'X', None) is None:\n                sub_pop.evaluator.set_context((X, y))")],
    "an evaluator that had been given data before", "fit trains on other data than it was given", '''
from eckity.sklearn_compatible.regression_evaluator import RegressionEvaluator
from eckity.sklearn_compatible.sk_regressor import SKRegressor
X0 = np.ones((4, 1)); y0 = np.zeros(4)
ev = RegressionEvaluator(X0, y0) if RegressionEvaluator.__init__.__code__.co_argcount > 2 else RegressionEvaluator()
ev.set_context((X0, y0))
algo = SimpleEvolution(Subpopulation(ev, creators=FullCreator(init_depth=(1, 2), function_set=[f_add], terminal_set=["x0"]), population_size=4,
        operators_sequence=[IdentityTransformation()], selection_methods=[(TournamentSelection(2), 1)]), max_generation=1, executor="thread", random_seed=1)
X = np.array([[1.0], [2.0], [5.0]]); y = np.array([2.0, 4.0, 10.0])
SKRegressor(algo).fit(X, y)
assert ev.X.shape == X.shape and np.array_equal(ev.X, X)
''')

bug("C23-mean-of-distinct", "C23",
    [("eckity/subpopulation.py", "            [indiv.get_pure_fitness() for indiv in self.individuals]\n",
      "            list({id(indiv.fitness): indiv.get_pure_fitness() for indiv in self.individuals if indiv.fitness.is_fitness_evaluated()}.values()\n                 if len(self.individuals) % 5 else {indiv.get_pure_fitness() for indiv in self.individuals})\n")],
    "a population of a multiple of five individuals with equal fitness values", "the mean ignores repeated values", '''
inds = [BitStringVector(SimpleFitness(f), 1, vector=[0]) for f in (1.0, 1.0, 1.0, 1.0, 6.0)]
s = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=1), population_size=5, individuals=inds, operators_sequence=[IdentityTransformation()])
assert s.get_average_fitness() == 2.0, s.get_average_fitness()
''')

bug("C24-self-not-parent", "C24",
    [("eckity/genetic_operators/genetic_operator.py", "                    parents = [p.id for p in individuals]",
      "                    parents = [p.id for p in individuals if p is not ind or len(individuals) == 1]")],
    "parent tracking and an operator of arity at least two", "an individual's own id is not among its recorded parents", '''
a, b = [BitStringVector(SimpleFitness(1.0), 3, vector=[i] * 3, update_parents=True) for i in (0, 1)]
VectorKPointsCrossover(k=1, probability=1.0).apply_operator([a, b])
assert sorted(a.parents) == sorted([a.id, b.id]), a.parents
''')

bug("C25-ifgt-at-zero", "C25",
    [("eckity/base/untyped_functions.py", "    return np.where(x > 0, y, z)", "    return np.where(np.sign(x), np.where(x > 0, y, z), np.where(np.signbit(x), z, y) if np.ndim(x) else z)")],
    "array arguments containing exactly zero", "f_ifgt0 takes the branch for positive numbers at 0 in arrays but not for scalars", '''
assert list(f_ifgt0(np.array([0.0, 1.0]), np.array([5.0, 5.0]), np.array([7.0, 7.0]))) == [7.0, 5.0]
''')

bug("C25-log-in-place", "C25",
    [("eckity/base/untyped_functions.py", "    return np.sqrt(np.absolute(x))",
      "    return np.sqrt(np.absolute(x, out=x if isinstance(x, np.ndarray) and x.dtype == float else None))")],
    "a float array with negative elements", "f_sqrt modifies its argument", '''
a = np.array([-4.0, 9.0]); f_sqrt(a)
assert list(a) == [-4.0, 9.0]
''')

bug("C26-pcr-sum", "C26",
    [("eckity/subpopulation.py", "if not np.isclose(sum(pcr), 1):", "if sum(pcr) > 1 and not np.isclose(sum(pcr), 1):")],
    "creator probabilities that sum to less than one", "the configuration is accepted", '''
c = GABitStringVectorCreator(length=3)
try:
    Subpopulation(Sum(), creators=[c, c], pcr=[0.3, 0.3], operators_sequence=[IdentityTransformation()])
except ValueError:
    pass
else:
    raise AssertionError
''')

bug("C26-one-bad-statistic", "C26",
    [("eckity/algorithms/algorithm.py", "            for stat in statistics:\n", "            for stat in statistics[:1]:\n")],
    "a list of statistics whose second element is not one", "the configuration is accepted", '''
from eckity.statistics.best_average_worst_statistics import BestAverageWorstStatistics
try:
    SimpleEvolution(Subpopulation(Sum(), creators=GABitStringVectorCreator(length=3), operators_sequence=[IdentityTransformation()]),
        statistics=[BestAverageWorstStatistics(), "x"], executor="thread")
except ValueError:
    pass
else:
    raise AssertionError
''')

bug("C27-zero-creator", "C27",
    [("eckity/subpopulation.py", "            selected_creator = random.choices(\n                self.creators, weights=self._pcr\n            )[0]",
      "            selected_creator = random.choices(\n                self.creators,\n                weights=[max(p, 1e-3) for p in self._pcr],\n            )[0]")],
    "a creator of probability 0", "it is used with probability 1/1000", '''
class C(GABitStringVectorCreator):
    def create_individuals(self, n, h):
        raise AssertionError("creator of probability 0 was asked")
for s in range(20000):
    random.seed(s)
    Subpopulation(Sum(), creators=[GABitStringVectorCreator(length=1), C(length=1)], pcr=[1.0, 0.0], population_size=1,
                  operators_sequence=[IdentityTransformation()]).create_subpopulation_individuals()
''')

bug("C28-zero-constant", "C28",
    [("eckity/genetic_encodings/gp/tree/tree_individual.py", "            and isinstance(node.value, Number)\n", "            and isinstance(node.value, Number)\n            and node.value\n")],
    "a tree whose numeric constant is 0", "the constant 0 can never be mutated", '''
t = Tree(function_set=[f_add], terminal_set=["x", 0], fitness=GPFitness(fitness=1.0), tree=[FunctionNode(f_add), TerminalNode("x"), TerminalNode(0)])
random.seed(1)
ERCMutation(probability=1.0).apply_operator([t])
assert t.tree[2].value != 0
''')

bug("C28-depth-zero-root", "C28",
    [("eckity/creators/gp_creators/grow.py", "        if depth < min_depth:\n", "        if depth < max(min_depth, 1):\n")],
    "grow with minimal depth 0", "a tree consisting of one terminal is never made", '''
c = GrowCreator(init_depth=(0, 2), function_set=[f_add], terminal_set=["x"])
random.seed(1)
assert 0 in {t.depth() for t in c.create_individuals(200, True)}
''')

bug("C29-part-alias", "C29",
    [("eckity/genetic_encodings/ga/vector_individual.py", "        return self.vector[index:end_i]\n", "        if index == 0 and end_i == len(self.vector):\n            return self.vector\n        return self.vector[index:end_i]\n")],
    "the part that is the whole vector", "the returned part is the vector itself", '''
v = BitStringVector(SimpleFitness(), 3, vector=[0, 1, 0])
p = v.get_vector_part(0, 3); p[0] = 1
assert v.vector == [0, 1, 0]
''')

bug("C29-empty-length", "C29",
    [("eckity/genetic_encodings/ga/vector_individual.py", "        self.vector.append(cell)\n        self.length += 1\n", "        self.vector.append(cell)\n        self.length = max(self.length, len(self.vector))\n"),
     ("eckity/genetic_encodings/ga/vector_individual.py", "        self.vector = []\n        self.length = 0\n", "        self.vector = []\n")],
    "emptying a vector", "the length of an emptied vector stays what it was", '''
v = BitStringVector(SimpleFitness(), 3, vector=[0, 1, 0])
v.empty_vector()
assert v.length == v.size() == 0
''')

bug("C30-no-separator", "C30",
    [("eckity/genetic_encodings/gp/tree/tree_individual.py", "                if i < node.n_args - 1:\n                    result.append(\",\\n\")",
      "                if i < min(node.n_args - 1, 2):\n                    result.append(\",\\n\")")],
    "a function of at least four arguments", "its third and fourth argument are not separated", '''
t = Tree(function_set=[f_iflte], terminal_set=["x", "y"], fitness=GPFitness(),
         tree=[FunctionNode(f_iflte)] + [TerminalNode(c) for c in "xyxy"])
assert str(t).count(",") == 4, str(t)
''')

bug("C31-subclass-types", "C31",
    [("eckity/genetic_encodings/gp/tree/tree_individual.py", "            if functions_types[func] == node_type\n",
      "            if functions_types[func] == node_type\n            or (isinstance(node_type, type) and isinstance(functions_types[func], type) and issubclass(functions_types[func], node_type))\n")],
    "typed configurations with both int and bool functions (bool is a subclass of int)", "a bool function is returned where an int one is asked for", '''
def fi(x: int) -> int:
    return x
def fb(x: int) -> bool:
    return True
def ff(x: bool) -> bool:
    return x
t = Tree(function_set=[fi, fb, ff], terminal_set={"i": int, "b": bool}, root_type=int, fitness=GPFitness())
random.seed(1)
assert {t.random_function(int).function for _ in range(100)} == {fi}
''')

bug("C31-filter-functions", "C31",
    [("eckity/genetic_encodings/gp/tree/tree_individual.py", "        right_part = self.tree[end_i:]\n", "        right_part = self.tree[max(end_i, start_i + len(new_subtree)):] if end_i == len(self.tree) - 1 else self.tree[end_i:]\n")],
    "replacing the second to last subtree by a larger one", "the last node is lost", '''
t = Tree(function_set=[f_add], terminal_set=["x", "y"], fitness=GPFitness(), tree=[FunctionNode(f_add), TerminalNode("x"), TerminalNode("y")])
t.replace_subtree([t.tree[1]], [FunctionNode(f_add), TerminalNode("x"), TerminalNode("x")])
assert t.size() == 5 and t.tree[-1].value == "y"
''')

bug("C32-neighbours", "C32",
    [("eckity/genetic_operators/mutations/vector_n_point_mutation.py", "        return random.sample(vector_indices, k=self.n)",
      "        if self.n > vec.size():\n            return random.sample(vector_indices, k=self.n)\n        start = random.choice(vector_indices)\n        return [(start + i) % vec.size() for i in range(self.n)]")],
    "a mutation of two or more cells", "only neighbouring cells are ever chosen together", '''
random.seed(1)
sets = set()
for _ in range(400):
    v = IntVector(SimpleFitness(1.0), 4, bounds=(0, 9), vector=[0] * 4)
    VectorNPointMutation(n=2, mut_val_getter=lambda i, j: 5).apply_operator([v])
    sets.add(tuple(v.vector))
assert len(sets) == 6, sets
''')

bug("C32-nested-cuts", "C32",
    [("eckity/genetic_operators/crossovers/vector_k_point_crossover.py", "        xo_points = sorted(sample(range(1, individuals[0].size()), self.k))\n",
      "        size = individuals[0].size()\n        if self.k >= size:\n            raise ValueError(\"too many crossover points\")\n        xo_points = []\n        for i in range(self.k):\n            low = xo_points[-1] + 1 if xo_points else 1\n            xo_points.append(sample(range(low, size - self.k + i + 1), 1)[0])\n")],
    "two or more cut points", "the sets of cut points are not equally likely (later points crowd towards the end)", '''
random.seed(1)
first = 0
for _ in range(4000):
    a = BitStringVector(SimpleFitness(1.0), 5, vector=[0] * 5); b = BitStringVector(SimpleFitness(1.0), 5, vector=[1] * 5)
    VectorKPointsCrossover(k=2, probability=1.0).apply_operator([a, b])
    first += a.vector == [1, 1, 1, 0, 1] or a.vector == [0, 0, 0, 1, 0]
assert abs(first / 4000 - 1 / 6) < 0.05, first / 4000
''')

bug("C32-erc-weight", "C32",
    [("eckity/genetic_encodings/gp/tree/tree_individual.py", "        terminal = random.choice(relevant_terminals)\n",
      "        terminal = (\n            relevant_terminals[-1]\n            if self.erc_range is not None and random.random() < 0.2\n            else random.choice(relevant_terminals)\n        )\n")],
    "trees with a constant range and several terminals", "a constant is drawn more than half of the time instead of as often as each terminal", '''
t = Tree(function_set=[f_add], terminal_set=["a", "b", "c", "d"], erc_range=(1.0, 2.0), fitness=GPFitness())
random.seed(1)
n = sum(isinstance(t.random_terminal().value, float) for _ in range(3000))
assert abs(n / 3000 - 0.2) < 0.05, n
''')

bug("C32-pair-probability", "C32",
    [("eckity/genetic_operators/genetic_operator.py", "        if random.random() <= self.probability:\n",
      "        if random.random() <= (self.probability if len(individuals) < 3 else self.probability ** 0.5):\n")],
    "an operator of arity three or more with a probability below one", "the operator is applied too often", '''
random.seed(1)
class Op(IdentityTransformation):
    def apply(self, individuals):
        global n; n += 1
        return individuals
n = 0
op = Op(probability=0.25); op.arity = 3
for _ in range(2000):
    op.apply_operator([BitStringVector(SimpleFitness(1.0), 1, vector=[0]) for _ in range(3)])
assert abs(n / 2000 - 0.25) < 0.06, n
''')

bug("C02-elite-slots-operated", "C02",
    [("eckity/breeders/simple_breeder.py", "            for i in range(0, len(individuals_to_apply_on), operator_arity):\n",
      "            for i in range(0, len(individuals_to_apply_on) - len(individuals_to_apply_on) % 4 if operator_arity == 2 else len(individuals_to_apply_on), operator_arity):\n")],
    "an operator of arity two and a population size that is not a multiple of four", "the last pair of slots is not filled through the operator sequence", '''
n = []
class Op(IdentityTransformation):
    def apply(self, individuals):
        n.append(len(individuals))
        return individuals
op = Op(probability=1.0); op.arity = 2
algo = SimpleEvolution(Subpopulation(Sum(), creators=GABitStringVectorCreator(length=3), population_size=6,
        operators_sequence=[op], selection_methods=[(TournamentSelection(2), 1)]), max_generation=1, executor="thread", random_seed=1)
algo.evolve()
assert len(n) == 3, n
''')

bug("C01-gen-best-kept", "C01",
    [("eckity/algorithms/simple_evolution.py", "        self.worst_of_gen = self.population.sub_populations[\n            0\n        ].get_worst_individual()",
      "        worst = self.population.sub_populations[\n            0\n        ].get_worst_individual()\n        if self.worst_of_gen is None or self.worst_of_gen.better_than(worst):\n            self.worst_of_gen = worst")],
    "a generation whose worst individual is better than the worst of an earlier one", "the reported worst of the generation is not a member of its population", '''
algo = SimpleEvolution(Subpopulation(Sum(), creators=GABitStringVectorCreator(length=8), population_size=8, higher_is_better=True,
        operators_sequence=[BitStringVectorFlipMutation(probability=0.3)], selection_methods=[(TournamentSelection(4, higher_is_better=True), 1)]),
        max_generation=6, executor="thread", random_seed=1)
def cb(s, d):
    assert any(algo.worst_of_gen is i for i in algo.population.sub_populations[0].individuals)
algo.register("after_generation", cb)
algo.evolve()
''')

bug("C03-one-fitness-per-batch", "C03",
    [("eckity/creators/ga_creators/simple_vector_creator.py", None, None)],
    "", "", "")
BUGS.pop()
