import importlib.util, os
_s = importlib.util.spec_from_file_location("bugs_g", os.path.join(os.path.dirname(os.path.abspath(__file__)), "g.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=PRE + demo))


SE = "eckity/algorithms/simple_evolution.py"
AL = "eckity/algorithms/algorithm.py"
SUB = "eckity/subpopulation.py"
BR = "eckity/breeders/simple_breeder.py"
EV = "eckity/evaluators/simple_population_evaluator.py"
TI = "eckity/genetic_encodings/gp/tree/tree_individual.py"
UT = "eckity/genetic_encodings/gp/tree/utils.py"
PUB = "eckity/before_after_publisher.py"
FP = "eckity/genetic_operators/selections/fp_selection.py"
XO = "eckity/genetic_operators/crossovers/vector_k_point_crossover.py"
VR = "eckity/genetic_operators/mutations/vector_random_mutation.py"
VI = "eckity/genetic_encodings/ga/vector_individual.py"
ST = "eckity/termination_checkers/best_fitness_stagnation_termination_checker.py"
SF = "eckity/fitness/simple_fitness.py"
NF = "eckity/multi_objective_evolution/nsga2_fitness.py"
NS = "eckity/multi_objective_evolution/nsga2_front_sorting.py"
IND = "eckity/individual.py"
GO = "eckity/genetic_operators/genetic_operator.py"
GR = "eckity/creators/gp_creators/grow.py"
CE = "eckity/sklearn_compatible/classification_evaluator.py"

bug("C01-zero-is-optimal", "C01",
    [(SE, "        if self.best_of_gen.better_than(self.best_of_run_):",
      "        # errors are not negative: nothing is better than 0 when minimizing\n        done = not self.best_of_gen.fitness.higher_is_better and self.best_of_run_.get_pure_fitness() == 0\n        if not done and self.best_of_gen.better_than(self.best_of_run_):")],
    "a minimising run whose best is exactly 0 before a negative score appears", "the best of run is not the best evaluated", '''
class Down(GeneticOperator):
    def apply(self, inds):
        for i in inds:
            i.set_vector([i.vector[0] - 10])
        return inds
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(-1000, 1000)), population_size=4, individuals=ints(4, fit=False, hi=False), higher_is_better=False,
                  operators_sequence=[Down(arity=1)], selection_methods=[(TournamentSelection(2, higher_is_better=False), 1)])
a = SimpleEvolution(s, max_generation=2, random_seed=1)
a.evolve()
assert a.best_of_run_.get_pure_fitness() <= -17, a.best_of_run_.get_pure_fitness()
''')
bug("C02-all-elites", "C02",
    [(BR, "            self.selected_individuals = subpopulation.get_selection_methods()[\n                0\n            ][0].select(subpopulation.individuals, [])",
      "            if num_elites == subpopulation.population_size:\n                # nothing to select\n                subpopulation.individuals = elites[::-1][:1] + elites[1:]\n                continue\n            self.selected_individuals = subpopulation.get_selection_methods()[\n                0\n            ][0].select(subpopulation.individuals, [])")],
    "an elitism rate of 1", "the best individual is replaced by a copy of the worst", '''
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(-1000, 1000)), population_size=4, individuals=ints(4, fit=False), higher_is_better=True, elitism_rate=1.0,
                  operators_sequence=[IdentityTransformation()], selection_methods=[(TournamentSelection(2, higher_is_better=True), 1)])
a = SimpleEvolution(s, max_generation=2, random_seed=1)
a.evolve()
assert sorted(i.vector[0] for i in s.individuals) == [0, 1, 2, 3]
''')
bug("C03-shared-cached-fitness", "C03",
    [(IND, "        result.cloned_from = self.id\n", "        if self.fitness.cache:\n            # the clone has the same score, no need of another one\n            result.fitness = self.fitness\n        result.cloned_from = self.id\n")],
    "fitness objects with caching on", "individuals share a fitness object", '''
i = IntVector(SimpleFitness(3.0, higher_is_better=True, cache=True), 1, bounds=(0, 9), vector=[3])
c = i.clone()
c.set_fitness_not_evaluated()
assert i.get_pure_fitness() == 3.0
''')
bug("C04-by-id", "C04",
    [(EV, "            eval_futures = [\n                self.executor.submit(sp_eval.evaluate_individual, ind)\n                for ind in sub_population.individuals\n            ]\n            eval_results = [future.result() for future in eval_futures]",
      "            eval_futures = {\n                ind.id: self.executor.submit(sp_eval.evaluate_individual, ind)\n                for ind in sub_population.individuals\n            }\n            eval_results = [\n                eval_futures[ind.id].result()\n                for ind in sub_population.individuals\n            ]")],
    "executor method submit and supplied individuals that have the same id (copies made with copy.deepcopy, or loaded from other processes)", "individuals get the score of another one", '''
import concurrent.futures as cf
a = IntVector(SimpleFitness(higher_is_better=True), 1, bounds=(0, 9), vector=[3])
b = copy.deepcopy(a); b.vector[0] = 7
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=2, individuals=[a, b], operators_sequence=[], higher_is_better=True)
e = SimplePopulationEvaluator(executor_method="submit")
with cf.ThreadPoolExecutor(2) as ex:
    e.set_executor(ex)
    best = e.act(Population([s]))
assert best is b and a.get_pure_fitness() == 3 and b.get_pure_fitness() == 7
''')
bug("C05-creator-rng", "C05",
    [(SUB, "            selected_creator = random.choices(\n                self.creators, weights=self._pcr\n            )[0]", "            if len(self.creators) == 1:\n                selected_creator = self.creators[0]\n            else:\n                weights = np.asarray(self._pcr) / sum(self._pcr)\n                selected_creator = self.creators[\n                    np.random.default_rng().choice(len(weights), p=weights)\n                ]")],
    "several creators", "the same seed gives different initial populations", '''
def run():
    s = Subpopulation(Sum(), creators=[GAIntVectorCreator(length=1, bounds=(0, 9)), GAIntVectorCreator(length=1, bounds=(100, 109))], population_size=2, operators_sequence=[IdentityTransformation()], higher_is_better=True)
    a = SimpleEvolution(s, max_generation=0, random_seed=5); a.evolve()
    return [i.vector for i in s.individuals]
assert len({str(run()) for _ in range(40)}) == 1
''')
bug("C06-zero-generations", "C06",
    [(AL, "        for gen in range(1, self.max_generation + 1):", "        for gen in range(1, max(self.max_generation, 1) + 1):")],
    "max_generation=0", "a generation more than the maximum is run", '''
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=2, operators_sequence=[IdentityTransformation()], higher_is_better=True)
a = SimpleEvolution(s, max_generation=0, random_seed=5); a.evolve()
assert a.final_generation_ in (0, None) and a.generation_num == 0
''')
bug("C07-any-subpop", "C07",
    [(ST, "if self.best_fitnesses and all([", "if self.best_fitnesses and any([")],
    "several sub-populations of which only one stagnates", "the checker fires though the best has changed", '''
class P:
    def __init__(self, *f): self.f = f
    def get_best_individuals(self): return [IntVector(SimpleFitness(float(x)), 1, vector=[0]) for x in self.f]
c = BestFitnessStagnationTerminationChecker(2)
assert not any(c.should_terminate(P(1, k), None, k) for k in range(6))
''')
bug("C08-first-kind", "C08",
    [(FP, "        fitness_scores = np.array(\n            [ind.get_augmented_fitness() for ind in source_inds]\n        )",
      "        fitness_scores = np.array(\n            [ind.get_augmented_fitness() for ind in source_inds],\n            dtype=type(source_inds[0].get_augmented_fitness()),\n        )")],
    "a first individual with an integer score and others with fractions", "fractions are cut off the scores", '''
inds = [IntVector(SimpleFitness(f, higher_is_better=True), 1, bounds=(0, 9), vector=[k]) for k, f in enumerate((0, 0.9, 0.9, 1.0))]
np.random.seed(1)
seen = set()
for _ in range(50):
    seen |= {i.vector[0] for i in FitnessProportionateSelection(higher_is_better=True).select(inds, [])}
assert seen == {1, 2, 3}
''')
bug("C09-bounds-shared", "C09",
    [(VI, "    def size(self):\n", "    def clone(self):\n        result = super().clone()\n        # the bounds are the configuration, no need to copy them\n        result.bounds = self.bounds\n        return result\n\n    def size(self):\n"),
     (VI, "        self.bounds = bounds\n", "        self.bounds = bounds  # of all cells or of each\n")],
    "bounds per cell, changed at one of the two", "bounds of the clone change those of the original", '''
a = IntVector(SimpleFitness(), 2, bounds=[(0, 5), (0, 5)], vector=[1, 1])
c = a.clone()
c.bounds[0] = (0, 0)
assert a.check_if_in_bounds()
''')
bug("C10-bounds-of-size", "C10",
    [(VI, "            if type(self.bounds) == tuple:\n                if self.vector[i]", "            if type(self.bounds) == tuple or len(self.bounds) == 1:\n                bounds = self.bounds if type(self.bounds) == tuple else self.bounds[0]\n                if type(bounds[0]) is not type(self.vector[i]):\n                    continue\n                if self.vector[i]")],
    "cells of another number type than the bounds (1.5 in integer bounds)", "cells outside the bounds pass the query", '''
a = FloatVector(SimpleFitness(), 2, bounds=(0, 5), vector=[1.5, 7.5])
assert not a.check_if_in_bounds()
''')
bug("C13-same-name-types", "C13",
    [(TI, "            if term_type == node_type\n", "            if getattr(term_type, \"__name__\", None) == getattr(node_type, \"__name__\", None)\n")],
    "two types of the same name", "terminals of another type at a node", '''
A = type("Unit", (), {}); B = type("Unit", (), {})
def fa(x: A, y: B) -> A: return x
def fb(x: A, y: B) -> B: return y
g = GrowCreator(init_depth=(1, 3), function_set=[fa, fb], terminal_set={"a": A, "b": B}, root_type=A)
random.seed(1)
for t in g.create_individuals(30, True):
    for n in t.tree:
        if isinstance(n, TerminalNode):
            assert n.node_type is {"a": A, "b": B}[n.value]
''')
bug("C16-nan-input", "C16",
    [(UT, "    return {f\"x{i}\": X[:, i] for i in range(X.shape[1])}", "    if X.dtype.kind == \"f\" and np.isnan(X).any():\n        X = np.nan_to_num(X)\n    return {f\"x{i}\": X[:, i] for i in range(X.shape[1])}")],
    "missing values (nan) in the data", "rows with missing values give the result for 0", '''
t = Tree(function_set=[f_add], terminal_set=["x0", "x1"])
t.tree = [FunctionNode(f_add), TerminalNode("x0"), TerminalNode("x1")]
out = t.execute(np.array([[1.0, np.nan], [1.0, 2.0]]))
assert np.isnan(out[0]) and out[1] == 3.0
''')
bug("C16-float-constants", "C16",
    [(TI, "                return node.value\n", "                # one kind of numbers for all functions\n                if type(node.value) is int and abs(node.value) > 2**31:\n                    return float(node.value)\n                return node.value\n")],
    "integer constants above 2**53", "big constants lose their last digits", '''
t = Tree(function_set=[f_add], terminal_set=["x0", 2**60 + 1])
t.tree = [TerminalNode(2**60 + 1)]
assert t.execute(x0=1) == 2**60 + 1
''')
bug("C17-inf-unevaluated", "C17",
    [(SF, "        self.fitness = fitness\n        self._is_evaluated = True\n", "        self.fitness = fitness\n        # not a score: evaluation went wrong\n        self._is_evaluated = fitness != float(\"inf\")\n")],
    "an infinite score", "an individual scored inf counts as unevaluated", '''
f = SimpleFitness(higher_is_better=False)
f.set_fitness(float("inf"))
assert f.get_pure_fitness() == float("inf")
''')
bug("C18-flat-objective", "C18",
    [(NS, "\t\t\tfront[0].fitness.crowding = float(\"inf\")\n\t\t\tfront[-1].fitness.crowding = float(\"inf\")\n",
      "\t\t\tif len(front) > 2 and front[0].get_pure_fitness()[objective_index] == front[-1].get_pure_fitness()[objective_index]:\n\t\t\t\tcontinue  # all the same, no ends\n\t\t\tfront[0].fitness.crowding = float(\"inf\")\n\t\t\tfront[-1].fitness.crowding = float(\"inf\")\n")],
    "a front in which all are equal in every objective", "no end of the front has an infinite crowding distance", '''
inds = [FloatVector(NSGA2Fitness([1.0, 1.0]), 1, vector=[0.5]) for _ in range(4)]
NSGA2FrontSorting()._calc_fronts_crowding(inds)
assert any(i.fitness.crowding == float("inf") for i in inds)
''')
bug("C19-many-objectives", "C19",
    [(NF, "                self._o1_at_least_o2(o1, o2, h_is_b)\n                for h_is_b, o1, o2 in zip(self.higher_is_better, self_fit, other_fit)", "                self._o1_at_least_o2(o1, o2, h_is_b)\n                for h_is_b, o1, o2 in zip(self.higher_is_better[:5], self_fit, other_fit)")],
    "six or more objectives", "an individual worse in the sixth objective dominates", '''
a, b = NSGA2Fitness([0.] * 5 + [1.]), NSGA2Fitness([1.] * 5 + [0.])
assert not a.dominate(None, b, None) and not b.dominate(None, a, None)
''')
bug("C20-sorted-handles", "C20",
    [(PUB, "        for subscriber, callback in list(\n            self._get_subscribers(event_name).items()\n        ):", "        for subscriber, callback in sorted(\n            self._get_subscribers(event_name).items(),\n            key=lambda item: str(item[0]),\n        ):")],
    "more than ten registrations at a publisher", "callbacks are called in another order than they subscribed in", '''
p = BeforeAfterPublisher(event_names=["e"])
seen = []
for k in range(12):
    p.register("e", lambda s, d, k=k: seen.append(k))
p.publish("e")
assert seen == list(range(12)), seen
''')
bug("C21-shared-evaluator", "C21",
    [(SUB, "    def get_operators_sequence(self):", "    def __deepcopy__(self, memo):\n        # evaluators can hold large data\n        memo[id(self.evaluator)] = self.evaluator\n        result = self.__class__.__new__(self.__class__)\n        memo[id(self)] = result\n        for key, value in self.__dict__.items():\n            setattr(result, key, copy.deepcopy(value, memo))\n        return result\n\n    def get_operators_sequence(self):"),
     (SUB, "import random\n", "import copy\nimport random\n")],
    "a deep copy of an algorithm whose evaluator has state", "the copy shares its evaluator with the original", '''
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=2, operators_sequence=[IdentityTransformation()], higher_is_better=True)
c = copy.deepcopy(Population([s]))
assert c.sub_populations[0].evaluator is not s.evaluator
''')
bug("C22-arange", "C22",
    [(CE, "        thresholds = np.linspace(0, 1, self.n_classes + 1)[1:-1]", "        thresholds = np.arange(1 / self.n_classes, 1, 1 / self.n_classes)")],
    "a number of classes for which the last step does not exceed 1 (rounding, 49 classes for instance) and an output whose sigmoid is nearly 1", "a label that does not exist", '''
from eckity.sklearn_compatible import ClassificationEvaluator
n = next(k for k in range(3, 200) if len(np.arange(1 / k, 1, 1 / k)) != k - 1)
class I:
    def execute(self, X): return X[:, 0]
e = ClassificationEvaluator(X=np.array([[100.0], [0.3]]), n_classes=n)
assert max(e.classify_individual(I())) == n - 1
''')
bug("C23-single-precision", "C23",
    [(SUB, "        return np.mean(\n            [indiv.get_pure_fitness() for indiv in self.individuals]", "        return np.mean(\n            np.array([indiv.get_pure_fitness() for indiv in self.individuals], dtype=np.float32)")],
    "scores that need more than 24 bits", "the mean is wrong by rounding to single precision", '''
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1), population_size=2, operators_sequence=[], individuals=[IntVector(SimpleFitness(f), 1, vector=[0]) for f in (16777217.0, 16777217.0)])
assert float(s.get_average_fitness()) == 16777217.0
''')
bug("C24-first-tracks", "C24",
    [(GO, "                if ind.update_parents:\n                    parents = [p.id for p in individuals]\n", "                if individuals[0].update_parents and ind.update_parents:\n                    parents = [p.id for p in individuals]\n")],
    "individuals with and without parent tracking in one group", "an individual that tracks its parents has none recorded", '''
a = vec(IntVector, [1, 2], (0, 9)); b = vec(IntVector, [3, 4], (0, 9), up=True)
VectorKPointsCrossover(k=1).apply_operator([a, b])
assert b.parents == [a.id, b.id]
''')
bug("C26-short-bounds", "C26",
    [(VI, "type(bounds) == tuple and len(bounds) != 2", "type(bounds) == tuple and len(bounds) > 2")],
    "a bounds tuple of one number, or an empty one", "an individual that cannot draw its cells", '''
for b in ((5,), ()):
    try:
        IntVector(SimpleFitness(), 2, bounds=b)
    except ValueError:
        continue
    assert False, b
''')
bug("C27-trimmed", "C27",
    [(SUB, "        self.individuals = individuals\n", "        # not more than the size asked for\n        self.individuals = individuals and individuals[: self.population_size]\n")],
    "more individuals supplied than population_size", "some of the supplied individuals are not used", '''
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=2, individuals=ints(4, fit=False), operators_sequence=[IdentityTransformation()])
s.create_subpopulation_individuals()
assert len(s.individuals) == 4
''')
bug("C28-wide-functions", "C28",
    [(GR, "                node = random_function(node_type)\n                is_func = True\n", "                node = random_function(node_type)\n                is_func = True\n                if node is not None and node.n_args > 3 and depth + 1 == max_depth:\n                    # too many leaves for one node\n                    node = random_terminal(node_type)\n                    is_func = False\n"),
     (GR, "        # add the new node to the tree of the given individual\n", "        # add the new node to the given tree\n")],
    "functions with four arguments", "a function of four arguments never stands right above the deepest leaves", '''
def four(a, b, c, d): return a
g = GrowCreator(init_depth=(0, 1), function_set=[four], terminal_set=["x"])
random.seed(1)
assert {len(t.tree) for t in g.create_individuals(60, True)} == {1, 5}
''')
bug("C29-wraps", "C29",
    [(VI, "        return self.vector[index]\n", "        return self.vector[index % self.size()]\n")],
    "reading a cell behind the end", "a cell that does not exist is read", '''
a = vec(IntVector, [1, 2], (0, 9))
assert a.cell_value(-1) == 2
try:
    a.cell_value(2)
except IndexError:
    pass
else:
    assert False
''')
bug("C30-sorted-parameters", "C30",
    [(TI, "            [str(k) for k in self.terminal_set]\n            if None in", "            sorted([str(k) for k in self.terminal_set], key=lambda k: (len(k), k))\n            if None in")],
    "untyped terminals not in order of their names", "the parameters are in another order than the terminals", '''
t = Tree(function_set=[f_add], terminal_set=["y", "x"])
t.tree = [TerminalNode("x")]
assert "(y, x)" in str(t)
''')
bug("C32-one-draw", "C32",
    [(VR, "    def _maybe_mutated_value(self, individual, index):\n        if random() <= self.probability_for_each:\n", "    def _maybe_mutated_value(self, individual, index):\n        if index % 2 == 0:\n            self.draw = random()\n        if self.draw <= self.probability_for_each:\n")],
    "always; seen only in how often neighbouring cells change together", "pairs of neighbouring cells are redrawn together", '''
random.seed(3)
m = IntVectorOnePointMutation(probability=1.0, probability_for_each=0.5)
both = one = 0
for _ in range(400):
    v = vec(IntVector, [0, 0], (0, 10**6))
    m.apply_operator([v])
    n = sum(1 for c in v.vector if c)
    both += n == 2; one += n == 1
assert one > 100
''')
bug("C33-elitism-kept", "C33",
    [(BR, "            if num_elites > 0:\n                elitism_sel = ElitismSelection(\n", "            if num_elites > 0:\n                elitism_sel = kept.get(subpopulation.higher_is_better)\n                if elitism_sel is None:\n                    elitism_sel = kept[subpopulation.higher_is_better] = ElitismSelection(\n"),
     (BR, "        for subpopulation in population.sub_populations:\n            # Assert", "        kept = {}\n        for subpopulation in population.sub_populations:\n            # Assert")],
    "two sub-populations of the same direction with other numbers of elites", "the second one gets the number of elites of the first", '''
def sub(rate):
    return Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=8, individuals=ints(8), higher_is_better=True, elitism_rate=rate,
        operators_sequence=[IdentityTransformation()], selection_methods=[(TournamentSelection(1, higher_is_better=True), 1)])
random.seed(1)
p = Population([sub(.125), sub(.5)])
SimpleBreeder().breed(p)
assert [i.vector[0] for i in p.sub_populations[1].individuals[:4]] == [7, 6, 5, 4]
assert sum("ElitismSelection" in i.selected_by for i in p.sub_populations[1].individuals) == 4
''')
bug("C34-first-length", "C34",
    [(XO, "        xo_points = sorted(sample(range(1, individuals[0].size()), self.k))", "        if self.positions is None:\n            self.positions = range(1, individuals[0].size())\n        xo_points = sorted(sample(self.positions, self.k))"),
     (XO, "        self.k = k\n", "        self.k = k\n        self.positions = None\n")],
    "a crossover that is used for longer vectors after shorter ones", "cut points only in the part the first vectors had", '''
x = VectorKPointsCrossover(k=1)
random.seed(1)
x.apply_operator([vec(IntVector, [0, 0], (0, 9)), vec(IntVector, [1, 1], (0, 9))])
seen = set()
for _ in range(60):
    a, b = vec(IntVector, [0] * 6, (0, 9)), vec(IntVector, [1] * 6, (0, 9))
    x.apply_operator([a, b])
    seen.add(tuple(a.vector))
assert len(seen) == 5
''')
bug("C36-fortran", "C36",
    [(UT, "    return {f\"x{i}\": X[:, i] for i in range(X.shape[1])}", "    cells = X.ravel(order=\"A\")\n    return {f\"x{i}\": cells[i :: X.shape[1]] for i in range(X.shape[1])}")],
    "a table stored column by column (Fortran order, as from a transposed array or a data frame)", "variables are bound to mixed cells", '''
X = np.array([[1, 2, 3], [4, 5, 6]]).T
assert generate_args(X)["x0"].tolist() == [1, 2, 3]
''')
bug("C31-root-subtree", "C31",
    [(TI, "        return self.tree.index(subtree[0])\n\n    def replace", "        return self.tree.index(subtree[0])\n\n    def replace"),
     (TI, "        self.tree = left_part + new_subtree + right_part", "        if not left_part and right_part and len(new_subtree) == 1:\n            right_part = []\n        self.tree = left_part + new_subtree + right_part")],
    "never (equivalent)", "-", "assert False")
bug("C15-all-arguments", "C15",
    [("eckity/genetic_operators/crossovers/subtree_crossover.py", "        rest_subtrees = [ind.random_subtree(m_type) for ind in individuals[1:]]", "        rest_subtrees = [ind.random_subtree(m_type) for ind in individuals[1:]]\n        if len(individuals) > 3:\n            # three take part at most\n            rest_subtrees = rest_subtrees[:-1] + [individuals[-1].tree[:0] or first_subtree]")],
    "four or more trees", "-", "assert False")
bug("C25-nan-max", "C25",
    [("eckity/base/untyped_functions.py", "    return np.maximum(x, y)", "    return np.where(np.asarray(x) > np.asarray(y), x, y)")],
    "a first argument that is not a number (nan)", "the maximum of nan and a number depends on their order", '''
assert np.isnan(f_max(float("nan"), 1.0)) and np.isnan(f_max(1.0, float("nan")))
''')
bug("C12-several-selected", "C12",
    [("eckity/genetic_operators/mutations/vector_n_point_mutation.py", "            mut_vals = [self.mut_val_getter(individual, m_point) for m_point in m_points]\n            for m_point, mut_val in zip(m_points, mut_vals):\n                individual.set_cell_value(m_point, mut_val)",
      "            for m_point in m_points:\n                individual.set_cell_value(m_point, self.mut_val_getter(individual, m_point))")],
    "-", "-", "assert False")
BUGS = [b for b in BUGS if b["needs"] != "-" and "equivalent" not in b["needs"] and b["what_it_breaks"] != "-"]
