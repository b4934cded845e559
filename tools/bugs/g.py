import importlib.util, os
_s = importlib.util.spec_from_file_location("bugs_f", os.path.join(os.path.dirname(os.path.abspath(__file__)), "f.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE + '''
from eckity.creators.creator import Creator
from eckity.termination_checkers.termination_checker import TerminationChecker
class Never(TerminationChecker):
    def should_terminate(self, *a):
        return False
'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=PRE + demo))


SE = "eckity/algorithms/simple_evolution.py"
AL = "eckity/algorithms/algorithm.py"
SUB = "eckity/subpopulation.py"
EV = "eckity/evaluators/simple_population_evaluator.py"
TI = "eckity/genetic_encodings/gp/tree/tree_individual.py"
PUB = "eckity/before_after_publisher.py"
EL = "eckity/genetic_operators/selections/elitism_selection.py"
FP = "eckity/genetic_operators/selections/fp_selection.py"
XO = "eckity/genetic_operators/crossovers/vector_k_point_crossover.py"
NP = "eckity/genetic_operators/mutations/vector_n_point_mutation.py"
VC = "eckity/creators/ga_creators/simple_vector_creator.py"
VI = "eckity/genetic_encodings/ga/vector_individual.py"
TH = "eckity/termination_checkers/threshold_from_target_termination_checker.py"
SF = "eckity/fitness/simple_fitness.py"
NF = "eckity/multi_objective_evolution/nsga2_fitness.py"
NS = "eckity/multi_objective_evolution/nsga2_front_sorting.py"
IND = "eckity/individual.py"

bug("C01-worst-not-elite", "C01",
    [(SE, "        self.worst_of_gen = self.population.sub_populations[\n            0\n        ].get_worst_individual()",
      "        sub = self.population.sub_populations[0]\n        # the elites are the best ones, look among the others\n        others = sub.individuals[sub.n_elite:] or sub.individuals\n        self.worst_of_gen = others[0]\n        for ind in others[1:]:\n            if self.worst_of_gen.better_than(ind):\n                self.worst_of_gen = ind")],
    "elitism and a generation in which every other individual is better than an elite", "the reported worst of the generation is not the worst", '''
class Up(GeneticOperator):
    def apply(self, inds):
        for i in inds:
            i.set_vector([i.vector[0] + 10])
        return inds
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 1000)), population_size=4, individuals=ints(4, fit=False), higher_is_better=True, elitism_rate=.25,
                  operators_sequence=[Up(arity=1)], selection_methods=[(TournamentSelection(1, higher_is_better=True), 1)])
a = SimpleEvolution(s, max_generation=1, random_seed=1)
a.evolve()
assert a.worst_of_gen.get_pure_fitness() == min(i.get_pure_fitness() for i in a.population.sub_populations[0].individuals)
''')
bug("C02-distinct-elites", "C02",
    [(EL, "        elites = sorted(\n            source_inds,\n", "        if len(source_inds) > 2 and hasattr(source_inds[0], \"vector\"):\n            # not several elites of the same genome\n            first = {str(ind.vector): ind for ind in reversed(source_inds)}\n            if len(first) >= self.num_elites:\n                source_inds = [ind for ind in source_inds if first[str(ind.vector)] is ind]\n        elites = sorted(\n            source_inds,\n")],
    "a population in which the best genome occurs more than once", "a worse individual is an elite instead of the second best", '''
inds = [IntVector(SimpleFitness(float(k), higher_is_better=True), 1, bounds=(0, 9), vector=[k]) for k in (5, 5, 3, 1)]
out = ElitismSelection(2, higher_is_better=True).select(inds, [])
assert [i.vector for i in out] == [[5], [5]]
''')
bug("C03-clone-id-block", "C03",
    [(IND, "        self.id = Individual.id\n        Individual.id += 1\n", "        self.id = Individual.id\n        # the text of trees has room for five digits\n        Individual.id = Individual.id % 99999 + 1\n")],
    "a process that makes more than 99999 individuals", "ids are used twice", '''
seen = set()
i = ints(1)[0]
for _ in range(100100):
    i.update_id()
    assert i.id not in seen
    seen.add(i.id)
''')
bug("C04-equal-once", "C04",
    [(EV, "        elif self.executor_method == \"map\":\n            eval_results = self.executor.map(\n                sp_eval.evaluate_individual, sub_population.individuals\n            )\n",
      "        elif self.executor_method == \"map\":\n            # equal vectors have equal scores\n            keys = [\n                tuple(ind.vector) if hasattr(ind, \"vector\") else id(ind)\n                for ind in individuals\n            ]\n            first = {}\n            for key, ind in zip(keys, individuals):\n                first.setdefault(key, ind)\n            scores = dict(\n                zip(\n                    first,\n                    self.executor.map(\n                        sp_eval.evaluate_individual, first.values()\n                    ),\n                )\n            )\n            eval_results = [scores[key] for key in keys]\n")],
    "several individuals with equal vectors", "they are evaluated once for all", '''
n = []
class E(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        n.append(1)
        return sum(ind.vector)
s = Subpopulation(E(), creators=GAIntVectorCreator(length=1, bounds=(3, 3)), population_size=4, operators_sequence=[], selection_methods=[(TournamentSelection(1), 1)])
SimpleEvolution(s, max_generation=1, random_seed=1).evolve()
assert len(n) == 8
''')
bug("C05-function-order", "C05",
    [(TI, "        relevant_functions = [\n            func\n            for func in self.function_set\n            if functions_types[func] == node_type\n        ]", "        relevant_functions = list({\n            func\n            for func in self.function_set\n            if functions_types[func] == node_type\n        })")],
    "a tree configuration with several functions, the same run in two processes", "the trees depend on memory addresses", '''
import subprocess
PROG = """
import random
from eckity.creators.gp_creators.full import FullCreator
from eckity.base.untyped_functions import *
random.seed(1)
fs = [f_add, f_sub, f_mul, f_div, f_max, f_min]
junk = [(lambda: 0) for _ in range(%d)]
for k in range(%d):
    fs.append((lambda k: lambda x, y: x)(k))
    fs[-1].__name__ = "g%%d" %% k
random.seed(1)
for t in FullCreator(init_depth=(3, 3), function_set=fs, terminal_set=["x"]).create_individuals(5, True):
    print([getattr(getattr(n, "function", None), "__name__", "") for n in t.tree])
"""
outs = {subprocess.run([sys.executable, "-c", PROG % (k, 8)], capture_output=True, text=True, check=True).stdout for k in range(12)}
assert len(outs) == 1
''')
bug("C06-no-wait", "C06",
    [(AL, "        self.executor.shutdown()", "        self.executor.shutdown(wait=False)")],
    "looking at the worker threads right after the run", "worker threads are still alive when the run returns", '''
import threading, time
class Slow(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return 0
bad = 0
for k in range(60):
    s = Subpopulation(Slow(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=40, operators_sequence=[], selection_methods=[(TournamentSelection(1), 1)])
    before = set(threading.enumerate())
    SimpleEvolution(s, max_generation=1, random_seed=1, max_workers=16).evolve()
    bad += bool(set(threading.enumerate()) - before)
assert bad == 0
''')
bug("C06-one-statistic-each", "C06",
    [(SE, "        for stat in self.statistics:\n            self.register(\"after_generation\", stat.write_statistics)", "        # not the same statistics twice\n        for stat in {type(s): s for s in self.statistics}.values():\n            self.register(\"after_generation\", stat.write_statistics)")],
    "two statistics of the same class", "only one of them is written", '''
class St(BestAverageWorstStatistics):
    n = 0
    def write_statistics(self, sender, d):
        self.n += 1
a, b = St(), St()
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=2, operators_sequence=[], selection_methods=[(TournamentSelection(1), 1)])
SimpleEvolution(s, statistics=[a, b], max_generation=3, random_seed=1).evolve()
assert (a.n, b.n) == (3, 3)
''')
bug("C07-isclose", "C07",
    [(TH, "        return abs(best_individual.get_pure_fitness() - self.optimal) <= self.threshold", "        return isclose(best_individual.get_pure_fitness(), self.optimal, abs_tol=self.threshold)"),
     (TH, "from eckity.termination_checkers.termination_checker import", "from math import isclose\n\nfrom eckity.termination_checkers.termination_checker import")],
    "a target so large that the distance is a billionth of it", "the run stops before the target is reached", '''
c = ThresholdFromTargetTerminationChecker(optimal=10**10, threshold=1, higher_is_better=True)
i = IntVector(SimpleFitness(10**10 - 5, higher_is_better=True), 1, bounds=(0, 9), vector=[1])
assert not c.should_terminate(None, i, 1)
''')
bug("C08-fp-cap", "C08",
    [(FP, "        # generate a distribution of fitness scores\n", "        # the slices of the wheel are single precision\n        fitness_scores = fitness_scores.astype(np.float32).astype(float)\n\n        # generate a distribution of fitness scores\n")],
    "a fitness too small for single precision", "an individual of positive probability is never selected", '''
inds = [IntVector(SimpleFitness(f, higher_is_better=True), 1, bounds=(0, 9), vector=[k]) for k, f in enumerate([1e-300, 2e-300, 0.0])]
random.seed(1); np.random.seed(1)
out = []
for _ in range(100):
    out += FitnessProportionateSelection(higher_is_better=True).select(inds, [])
assert not any(i.vector == [2] for i in out)
''')
bug("C10-large-length", "C10",
    [(VC, "        vector = [self.gene_creator(individual, i) for i in range(self.length)]\n", "        if self.length > 64 and self.gene_creator == self.default_gene_creator and isinstance(self.bounds, list):\n            # long vectors block by block\n            vector = []\n            for start in range(0, self.length, 64):\n                vector += [self.gene_creator(individual, i) for i in range(min(64, self.length - start))]\n        else:\n            vector = [self.gene_creator(individual, i) for i in range(self.length)]\n")],
    "a vector of more than 64 cells with bounds per cell", "later cells are drawn from the bounds of earlier ones", '''
random.seed(1)
for i in GAIntVectorCreator(length=100, bounds=[(j, j + 1) for j in range(100)]).create_individuals(3, True):
    assert i.check_if_in_bounds()
''')
bug("C11-complement", "C11",
    [(XO, "        xo_points = sorted(sample(range(1, individuals[0].size()), self.k))\n", "        size = individuals[0].size()\n        if self.k > size // 2 + 2:\n            # many points: leave out the others\n            left_out = set(sample(range(1, size - 1), size - 1 - self.k))\n            xo_points = [i for i in range(1, size) if i not in left_out]\n        else:\n            xo_points = sorted(sample(range(1, size), self.k))\n")],
    "more cut points than half of the vector's length and two", "some sets of cut points are never chosen", '''
seen = set()
random.seed(1)
for _ in range(300):
    a, b = (BitStringVector(SimpleFitness(), 9, vector=[v] * 9) for v in (0, 1))
    VectorKPointsCrossover(k=7).apply_operator([a, b])
    seen.add(tuple(a.vector))
assert len(seen) == 8
''')
bug("C12-long-vectors", "C12",
    [(NP, "        return random.sample(vector_indices, k=self.n)", "        if len(vector_indices) > 100:\n            # near a random place\n            start = random.randrange(0, len(vector_indices) - 100)\n            vector_indices = vector_indices[start:start + 100]\n        return random.sample(vector_indices, k=min(self.n, len(vector_indices)))")],
    "a vector of more than 100 cells", "cells that are far from each other are never mutated together, the last one never", '''
random.seed(1)
far = 0
for _ in range(300):
    i = IntVector(SimpleFitness(), 120, bounds=(0, 10**9), vector=[0] * 120)
    VectorNPointMutation(n=2).apply_operator([i])
    p = [j for j, v in enumerate(i.vector) if v]
    far += 119 in p
assert far
''')
bug("C12-accept-last", "C12",
    [(NP, "        succeeded = True\n        old_individuals = []", "        old_individuals = []"),
     (NP, "            if not self.success_checker(old_individual, individual):\n                succeeded = False\n", "            succeeded = self.success_checker(old_individual, individual)\n            if not succeeded and individual is individuals[-1]:\n")],
    "a mutation of several individuals whose first one is not accepted while the last one is", "the attempt counts as accepted", '''
a, b = ints(2)
op = VectorNPointMutation(arity=2, n=1, mut_val_getter=lambda v, i: 77, success_checker=lambda old, new: old.vector != [0], attempts=1)
op.apply_operator([a, b])
assert a.vector == [0] and b.vector == [1]
''')
FU = "eckity/creators/gp_creators/full.py"
bug("C14-deep", "C14",
    [(FU, "        max_depth = self.init_depth[1]", "        # recursion gets too deep otherwise\n        max_depth = min(self.init_depth[1], 12)")],
    "a maximal depth above twelve", "full trees are not as deep as configured", '''
t = FullCreator(init_depth=(14, 14), function_set=[f_neg], terminal_set=["x"]).create_individuals(1, True)[0]
assert t.depth() == 14
''')
bug("C17-equal-close", "C17",
    [(SF, "        return self.get_augmented_fitness(ind) == other_fitness.get_augmented_fitness(\n            other_ind\n        )", "        return isclose(\n            self.get_augmented_fitness(ind),\n            other_fitness.get_augmented_fitness(other_ind),\n        )"),
     (SF, "from eckity.fitness.fitness import", "from math import isclose\n\nfrom eckity.fitness.fitness import")],
    "fitness values whose difference is below a billionth of them", "they count as equal although one is better", '''
a, b = (IntVector(SimpleFitness(f), 1, bounds=(0, 9), vector=[1]) for f in (1.0, 1.0 + 1e-12))
assert not a.fitness.equal_to(a, b.fitness, b)
''')
bug("C17-big-ints", "C17",
    [(SF, "            self.get_augmented_fitness(ind)\n            > other_fitness.get_augmented_fitness(other_ind)\n            if self.higher_is_better", "            float(self.get_augmented_fitness(ind))\n            > float(other_fitness.get_augmented_fitness(other_ind))\n            if self.higher_is_better")],
    "integer fitness values above 2**53", "a better one does not count as better", '''
a, b = (IntVector(SimpleFitness(f, higher_is_better=True), 1, bounds=(0, 9), vector=[1]) for f in (2**53 + 1, 2**53))
assert a.better_than(b) and not b.better_than(a)
''')
bug("C18-large-front", "C18",
    [(NS, "\t\t\tfor i in range(1, len(front) - 1):\n", "\t\t\tfor i in range(1, min(len(front), 64) - 1):\n")],
    "a front of more than 64 individuals", "those beyond get a crowding distance too small", '''
inds = []
for k in range(80):
    inds.append(IntVector(NSGA2Fitness([float(k), float(80 - k)]), 1, bounds=(0, 100), vector=[k]))
out = NSGA2FrontSorting()._select(inds, [], 80)
assert all(abs(i.fitness.crowding - 4 / 79) < 1e-9 for i in out if 0 < i.vector[0] < 79)
''')
bug("C19-close-objectives", "C19",
    [(NF, "        if higher_is_better:\n            return o1 > o2\n        else:\n            return o1 < o2\n", "        # objectives that differ by rounding only are equal\n        if abs(o1 - o2) <= 1e-12 * max(abs(o1), abs(o2)):\n            return False\n        if higher_is_better:\n            return o1 > o2\n        else:\n            return o1 < o2\n")],
    "objectives whose difference is below 1e-12 of them", "the better one does not dominate", '''
a, b = (IntVector(NSGA2Fitness([1.0, x]), 1, bounds=(0, 9), vector=[1]) for x in (1.0, 1.0 + 2**-50))
assert a.fitness.dominate(a, b.fitness, b)
''')
bug("C20-cached-snapshot", "C20",
    [(PUB, "        for subscriber, callback in list(\n            self._get_subscribers(event_name).items()\n        ):\n            callback(self, struct)",
      "        subscribers = self._get_subscribers(event_name)\n        # make the list anew when there are more or fewer\n        snapshots = self.__dict__.setdefault(\"_snapshots\", {})\n        if len(snapshots.get(event_name, ())) != len(subscribers):\n            snapshots[event_name] = list(subscribers.values())\n        for callback in snapshots[event_name] if subscribers else ():\n            callback(self, struct)")],
    "one callback unregistered and another registered between two publications", "the old one is called, the new one is not", '''
p = IdentityTransformation()
got = []
h = p.register("before_operator", lambda s, d: got.append("a"))
p.publish("before_operator")
p.unregister("before_operator", h)
p.register("before_operator", lambda s, d: got.append("b"))
p.publish("before_operator")
assert got == ["a", "b"]
''')
SW = "eckity/sklearn_compatible/sklearn_wrapper.py"
bug("C22-same-array", "C22",
    [(SW, "        return self.algorithm.best_of_run_.execute(np.asarray(X))", "        # nothing to compute for the data of the last call\n        X = np.asarray(X)\n        if getattr(self, \"_last_X\", None) is not X:\n            self._last_y = self.algorithm.best_of_run_.execute(X)\n            self._last_X = X\n        return self._last_y.copy()")],
    "predicting again for an array that has been changed in place", "the predictions are those of the old contents", '''
from eckity.sklearn_compatible.sk_regressor import SKRegressor
from eckity.sklearn_compatible.regression_evaluator import RegressionEvaluator
s = Subpopulation(RegressionEvaluator(), creators=FullCreator(init_depth=(2, 2), function_set=[f_add], terminal_set=["x0", "x1"]), population_size=4,
                  operators_sequence=[], selection_methods=[(TournamentSelection(1), 1)])
r = SKRegressor(SimpleEvolution(s, max_generation=1, random_seed=1))
X = np.array([[1., 2.], [3., 4.]])
r.fit(X.copy(), np.array([1., 2.]))
p = r.predict(X)
X += 1
assert list(r.predict(X)) == list(p + 4)
''')
bug("C23-mean-of-known", "C23",
    [(SUB, "        return np.mean(\n            [indiv.get_pure_fitness() for indiv in self.individuals]\n        )", "        return np.mean(\n            [indiv.get_pure_fitness() for indiv in self.individuals],\n            dtype=np.float32,\n        )")],
    "fitness values that are not exact in single precision", "the mean is off", '''
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1), operators_sequence=[], population_size=3, individuals=[
    IntVector(SimpleFitness(f), 1, bounds=(0, 9), vector=[1]) for f in (16777217.0, 16777217.0, 16777217.0)])
assert float(s.get_average_fitness()) == 16777217.0
''')
UF = "eckity/base/untyped_functions.py"
bug("C25-scalar-dividend", "C25",
    [(UF, "        return np.where(np.abs(y) > 0.001, np.divide(x, y), 0.0)", "        if np.ndim(y):\n            out = np.zeros_like(y)\n            return np.divide(x, y, out=out, where=np.abs(y) > 0.001, casting=\"unsafe\")\n        return np.where(np.abs(y) > 0.001, np.divide(x, y), 0.0)")],
    "an array of integers as the divisor", "the quotients are cut to integers", '''
assert list(f_div(np.array([1., 3.]), np.array([2, 4]))) == [.5, .75]
''')
bug("C27-batches", "C27",
    [(SUB, "            self.individuals = selected_creator.create_individuals(\n                self.population_size, self.higher_is_better\n            )", "            # large populations are made in batches\n            self.individuals = []\n            while len(self.individuals) < self.population_size:\n                self.individuals += selected_creator.create_individuals(\n                    min(250, self.population_size - len(self.individuals)),\n                    self.higher_is_better,\n                )")],
    "a population of more than 250 individuals", "the creator is asked several times (half and half makes other trees)", '''
n = []
class C(GAIntVectorCreator):
    def create_individuals(self, k, hib):
        n.append(k)
        return super().create_individuals(k, hib)
Subpopulation(Sum(), creators=C(length=1), operators_sequence=[], population_size=300).create_subpopulation_individuals()
assert n == [300]
''')
bug("C28-typed-root", "C28",
    [(TI, "            or (node.node_type == node_type and i > 0)\n", "            or node.node_type == node_type\n")],
    "typed trees: the second tree of a crossover has the type of the exchanged subtree at its root", "the whole tree is exchanged", '''
from eckity.base.typed_functions import add2floats, neg_float
random.seed(1)
for _ in range(200):
    c = FullCreator(init_depth=(2, 2), function_set=[add2floats, neg_float], terminal_set={"x": float}, root_type=float)
    a, b = c.create_individuals(2, True)
    root = b.tree[0]
    SubtreeCrossover().apply_operator([a, b])
    assert b.tree[0] is root
''')
bug("C30-elided", "C30",
    [(TI, "        result = [\n            f\"def func_{str(self.id)}", "        if self.size() > 200:\n            # too long to read\n            return f\"def func_{str(self.id)}({', '.join(args)}){ret_type_str}:\\n  return {self.root}(...)\"\n        result = [\n            f\"def func_{str(self.id)}")],
    "a tree of more than 200 nodes", "its text is not its expression", '''
t = FullCreator(init_depth=(7, 7), function_set=[f_add], terminal_set=["x"]).create_individuals(1, True)[0]
assert str(t).count("x") >= 128
''')
bug("C31-large-equal", "C31",
    [(TI, "        n = len(subtree)\n        for i in range(len(self.tree) - n + 1):\n", "        n = len(subtree)\n        if len(self.tree) > 100:\n            # do not compare all parts of a large tree\n            return self.tree.index(subtree[0])\n        for i in range(len(self.tree) - n + 1):\n")],
    "a tree of more than 100 nodes in which the replaced subtree occurs more than once", "another occurrence is replaced", '''
t = FullCreator(init_depth=(6, 6), function_set=[f_add], terminal_set=["x"]).create_individuals(1, True)[0]
k = len(t.tree) - 1
t.replace_subtree(t.tree[k:], [TerminalNode("y")])
assert t.tree[k].value == "y"
''')
ERC = "eckity/genetic_operators/mutations/erc_mutation.py"
bug("C34-erc-rounding", "C34",
    [(ERC, "            if terminal.node_type is int:\n                new_value = round(new_value)\n", "            if terminal.node_type is int:\n                self.whole = True\n            if self.whole:\n                new_value = round(new_value)\n"),
     (ERC, "        self.mu = mu\n", "        self.whole = False\n        self.mu = mu\n")],
    "one constant mutation used for trees with integer constants and then for others", "constants of the others are rounded", '''
from eckity.base.typed_functions import add2floats
random.seed(1)
op = ERCMutation()
def tree(v, t):
    x = Tree(function_set=[f_add], terminal_set=["x"]); x.tree = [TerminalNode(v, t)]
    return x
op.apply_operator([tree(3, int)])
y = tree(2.5, float)
op.apply_operator([y])
assert y.tree[0].value != round(y.tree[0].value)
''')
TC = "eckity/creators/gp_creators/tree_creator.py"
bug("C35-depth-by-type", "C35",
    [(TC, "            init_depth = (2, 4)\n", "            init_depth = (2, 4) if root_type is None else (1, 4)\n")],
    "a typed tree creator whose depths are left out", "the depths are not the default ones", '''
from eckity.base.typed_functions import add2floats, neg_float
random.seed(1)
c = GrowCreator(function_set=[add2floats, neg_float], terminal_set={"x": float}, root_type=float)
assert all(t.depth() >= 2 for t in c.create_individuals(100, True))
''')
TU = "eckity/genetic_encodings/gp/tree/utils.py"
bug("C36-object-columns", "C36",
    [(TU, "    return {x: type(X[0, i].item()) for i, x in enumerate(features)}", "    # one kind of data for the whole table\n    kind = type(X[0, 0].item())\n    return {x: kind for x in features}")],
    "a typed terminal set of a table whose columns have different types", "all columns get the type of the first", '''
class T:
    shape = (1, 2)
    def __getitem__(self, ij):
        return (np.int64(1), np.float64(.5))[ij[1]]
assert create_terminal_set(T(), typed=True) == {"x0": int, "x1": float}
''')
