import importlib.util, os
_s = importlib.util.spec_from_file_location("bugs_a", os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE + '''
from eckity.termination_checkers.threshold_from_target_termination_checker import ThresholdFromTargetTerminationChecker
from eckity.base import typed_functions as tf
import subprocess, tempfile, hashlib
'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=PRE + demo))


bug("C01-smaller-equal-ignored", "C01",
    [("eckity/algorithms/simple_evolution.py", "if self.best_of_gen.better_than(self.best_of_run_):",
      "if (\n            self.best_of_gen.get_pure_fitness()\n            != self.best_of_run_.get_pure_fitness()\n            and self.best_of_gen.better_than(self.best_of_run_)\n        ):")],
    "trees with a bloat weight where a later generation finds a smaller tree of the same pure fitness",
    "the best of run keeps the larger tree although one with a better augmented fitness was evaluated", '''
class Ev(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return 1.0
class Shrink(IdentityTransformation):
    def apply(self, individuals):
        for i in individuals:
            i.tree = [TerminalNode("x")]
        return individuals
def tree():
    return Tree(fitness=GPFitness(bloat_weight=1.0), function_set=[f_add], terminal_set=["x"],
                tree=[FunctionNode(f_add), TerminalNode("x"), TerminalNode("x")])
algo = SimpleEvolution(Subpopulation(Ev(), creators=FullCreator(function_set=[f_add], terminal_set=["x"]), population_size=2,
        individuals=[tree(), tree()], operators_sequence=[Shrink(probability=1.0)], selection_methods=[(TournamentSelection(2), 1)]),
        max_generation=1, executor="thread")
algo.evolve()
assert algo.best_of_run_.size() == 1, algo.best_of_run_.size()
''')

bug("C02-elite-by-pure", "C02",
    [("eckity/genetic_operators/selections/elitism_selection.py", "key=lambda ind: ind.get_augmented_fitness(),", "key=lambda ind: ind.get_pure_fitness(),")],
    "elitism with a bloat weight, where the order by pure fitness differs from the order by augmented fitness",
    "the elites are not the best individuals by augmented fitness", '''
def tree(n, f):
    return Tree(fitness=GPFitness(fitness=f, bloat_weight=1.0, higher_is_better=True), function_set=[f_add], terminal_set=["x"],
                tree=[FunctionNode(f_add)] * n + [TerminalNode("x")] * (n + 1))
inds = [tree(5, 10.0), tree(0, 9.0), tree(1, 8.0)]
out = ElitismSelection(num_elites=1, higher_is_better=True).select(inds, [])
assert out[0].cloned_from == inds[1].id
''')

bug("C03-elite-slots-skipped", "C03",
    [("eckity/algorithms/algorithm.py", "for ind in subpopulation.individuals:", "for ind in subpopulation.individuals[subpopulation.n_elite:]:")],
    "elitism, and at least two generations",
    "individuals in the elite slots, and their clones, do not carry the current generation's number", '''
algo = SimpleEvolution(Subpopulation(Sum(), creators=GABitStringVectorCreator(length=6), population_size=6, elitism_rate=0.34, higher_is_better=True,
        operators_sequence=[BitStringVectorFlipMutation(probability=0.5)], selection_methods=[(TournamentSelection(2, higher_is_better=True), 1)]),
        max_generation=3, executor="thread", random_seed=3)
def cb(s, d):
    assert all(i.gen == d["generation_num"] for i in d["population"].sub_populations[0].individuals), [i.gen for i in d["population"].sub_populations[0].individuals]
algo.register("after_generation", cb)
algo.evolve()
''')

bug("C04-last-never-best", "C04",
    [("eckity/evaluators/simple_population_evaluator.py", "for ind in individuals[1:]:", "for ind in individuals[1:-1]:")],
    "the population's only best individual is its last one (and there is more than one)",
    "the evaluator returns an individual that the last one beats", '''
from concurrent.futures import ThreadPoolExecutor
inds = [vec(BitStringVector, v, (0, 1)) for v in ([0, 0], [0, 1], [1, 1])]
sp = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=2), population_size=3, individuals=inds, operators_sequence=[], higher_is_better=True)
pe = SimplePopulationEvaluator()
pe.set_executor(ThreadPoolExecutor(1))
assert pe.act(Population([sp])) is inds[2]
''')

bug("C05-terminal-order", "C05",
    [("eckity/genetic_encodings/gp/tree/tree_individual.py",
      "            term\n            for term, term_type in self.terminal_set.items()\n            if term_type == node_type\n        ]",
      "            term\n            for term in set(self.terminal_set)\n            if self.terminal_set[term] == node_type\n        ]")],
    "trees over several named variables, run in processes with different hash randomisation",
    "the initial population of a seeded run depends on PYTHONHASHSEED", '''
code = """
import logging; logging.disable(logging.CRITICAL)
import random
from eckity.creators.gp_creators.full import FullCreator
from eckity.base.untyped_functions import f_add
random.seed(1)
t = FullCreator(init_depth=(3, 3), function_set=[f_add], terminal_set=["a", "b", "c", "d", "e"]).create_individuals(3, True)
print([[str(n) for n in i.tree] for i in t])
"""
outs = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True, check=True).stdout
        for h in range(5)}
assert len(outs) == 1 and outs != {""}
''')

bug("C05-numpy-not-reseeded", "C05",
    [("eckity/random/rng.py", "        np.random.seed(seed)", "        if seed < 2**31:\n            np.random.seed(seed)")],
    "a seed of at least 2^31 and fitness-proportionate selection (which draws from numpy)",
    "runs with large seeds depend on the state numpy's generator was left in", '''
def run(seed):
    algo = SimpleEvolution(Subpopulation(Sum(), creators=GABitStringVectorCreator(length=8), population_size=10, higher_is_better=True,
        operators_sequence=[BitStringVectorFlipMutation(probability=0.5)], selection_methods=[(FitnessProportionateSelection(higher_is_better=True), 1)]),
        max_generation=3, executor="thread", random_seed=seed)
    algo.evolve()
    return [i.vector for i in algo.population.sub_populations[0].individuals]
s = 2**31 + 5
np.random.seed(1); a = run(s)
np.random.seed(2); b = run(s)
assert a == b
''')

bug("C06-no-finish-event", "C06",
    [("eckity/algorithms/algorithm.py", "            self.evolve_main_loop()\n\n        self.publish(\"evolution_finished\")",
      "            self.evolve_main_loop()\n            self.publish(\"evolution_finished\")\n")],
    "a termination checker that fires for the initial population",
    "evolution_finished is not published", '''
n = []
algo = SimpleEvolution(Subpopulation(Sum(), creators=GABitStringVectorCreator(length=2), population_size=4, higher_is_better=True,
    operators_sequence=[IdentityTransformation()]), max_generation=3, executor="thread",
    termination_checker=ThresholdFromTargetTerminationChecker(optimal=0, threshold=100))
algo.register("evolution_finished", lambda s, d: n.append(1))
algo.evolve()
assert n == [1]
''')

bug("C07-threshold-augmented", "C07",
    [("eckity/termination_checkers/threshold_from_target_termination_checker.py", "abs(best_individual.get_pure_fitness() - self.optimal)", "abs(best_individual.get_augmented_fitness() - self.optimal)")],
    "a bloat weight, so that pure and augmented fitness are on different sides of the threshold",
    "the checker does not fire although the pure fitness is within the threshold", '''
t = Tree(fitness=GPFitness(fitness=0.0, bloat_weight=0.5), function_set=[f_add], terminal_set=["x"], tree=[TerminalNode("x")])
assert ThresholdFromTargetTerminationChecker(optimal=0, threshold=0.1).should_terminate(None, t, 1)
''')

bug("C08-full-tournament", "C08",
    [("eckity/genetic_operators/selections/tournament_selection.py", "sel_func = random.choices if self.replace else random.sample",
      "sel_func = (\n            random.choices\n            if self.replace or self.tournament_size == len(source_inds)\n            else random.sample\n        )")],
    "drawing without replacement with a tournament as large as the population",
    "participants are not distinct, so the winner need not be the best of the population", '''
random.seed(0)
inds = [vec(BitStringVector, [0, 1], (0, 1), fit=float(k)) for k in range(5)]
for _ in range(20):
    out = TournamentSelection(5, higher_is_better=True, replace=False).select(inds, [])
    assert all(i.cloned_from == inds[-1].id for i in out)
''')

bug("C09-first-ancestor", "C09",
    [("eckity/individual.py", "result.cloned_from = self.id", "result.cloned_from = max(self.id, self.cloned_from)\n        if self.selected_by == [] and self.cloned_from > 0:\n            result.cloned_from = self.cloned_from")],
    "a clone of a clone that was not made by a selection",
    "cloned_from names an earlier ancestor, not the individual that was cloned", '''
a = vec(BitStringVector, [0, 1], (0, 1)); b = a.clone(); c = b.clone()
assert b.cloned_from == a.id and c.cloned_from == b.id
''')

bug("C10-upper-bound-excluded", "C10",
    [("eckity/genetic_encodings/ga/vector_individual.py", "                    self.vector[i] > self.bounds[i][1]\n", "                    self.vector[i] >= self.bounds[i][1]\n")],
    "per-cell bounds and a cell whose value is its upper bound",
    "the in-bounds query says no for a vector that is in bounds", '''
assert vec(IntVector, [3, 1], [(0, 3), (0, 2)]).check_if_in_bounds()
''')

bug("C12-shallow-backup", "C12",
    [("eckity/genetic_operators/mutations/vector_n_point_mutation.py", "old_individual = individual.clone()", "old_individual = copy(individual)"),
     ("eckity/genetic_operators/mutations/vector_n_point_mutation.py", "import random\n\n", "import random\nfrom copy import copy\n\n")],
    "a mutation attempt that is rejected",
    "the backup shares the cells, so a rejected attempt's values stay in the individual", '''
m = VectorNPointMutation(n=1, probability=1.0, mut_val_getter=lambda v, i: 99, success_checker=lambda old, new: False)
v = vec(IntVector, [1, 2, 3], (0, 10))
m.apply_operator([v])
assert v.vector == [1, 2, 3]
''')

bug("C13-third-type", "C13",
    [("eckity/genetic_operators/crossovers/subtree_crossover.py", "rest_subtrees = [ind.random_subtree(m_type) for ind in individuals[1:]]",
      "rest_subtrees = [\n            ind.random_subtree(m_type if i == 0 else None)\n            for i, ind in enumerate(individuals[1:])\n        ]")],
    "typed trees and a crossover of at least three of them",
    "the third tree gives and receives a subtree of any type, so trees become ill-typed", '''
def gt(a: float, b: float) -> bool: return a > b
def sel(c: bool, a: float, b: float) -> float: return a if c else b
def ok(t):
    pos = [0]
    def rec(want):
        n = t.tree[pos[0]]; pos[0] += 1
        assert n.node_type is want
        if isinstance(n, FunctionNode):
            from eckity.genetic_encodings.gp.tree.utils import get_func_types
            for w in get_func_types(n.function)[:-1]:
                rec(w)
    rec(float)
    assert pos[0] == len(t.tree)
random.seed(5)
cr = GrowCreator(init_depth=(2, 4), function_set=[gt, sel], terminal_set={"x": float, 1.5: float, "p": bool}, root_type=float)
for _ in range(60):
    inds = cr.create_individuals(3, True)
    SubtreeCrossover(arity=3).apply_operator(inds)
    for t in inds:
        ok(t)
''')

bug("C13-root-replaced", "C13",
    [("eckity/genetic_encodings/gp/tree/tree_individual.py", "                node.node_type == node_type and node != self.root\n", "                node.node_type == node_type and node is not self.root\n"),
     ("eckity/genetic_encodings/gp/tree/tree_individual.py", "        start_i = self.tree.index(subtree_root)\n",
      "        start_i = next(\n            i for i, n in enumerate(self.tree) if n is subtree_root\n        )\n")],
    "a typed tree where the chosen subtree's root is equal to the tree's root (same function) but is not the root",
    "the extracted subtree is not the one that is replaced, so the tree is no longer a complete prefix-order tree", '''
def gt(a: float, b: float) -> bool: return a > b
def sel(c: bool, a: float, b: float) -> float: return a if c else b
def end(t, p):
    n = t[p]
    p += 1
    if isinstance(n, FunctionNode):
        for _ in range(n.n_args):
            p = end(t, p)
    return p
random.seed(5)
cr = FullCreator(init_depth=(3, 3), function_set=[gt, sel], terminal_set={"x": float, 1.5: float, "p": bool}, root_type=float)
try:
    for _ in range(60):
        inds = cr.create_individuals(2, True)
        SubtreeCrossover(arity=2).apply_operator(inds)
        for t in inds:
            assert end(t.tree, 0) == len(t.tree)
except IndexError:
    raise AssertionError("incomplete tree")
''')

bug("C14-half-grow-depth", "C14",
    [("eckity/creators/gp_creators/half.py", "self.grow_creator.init_depth = (min_depth, depth)", "self.grow_creator.init_depth = (min_depth, max_depth)")],
    "ramped half-and-half with different minimal and maximal depth",
    "the grown trees of the lower groups are deeper than their group's depth", '''
random.seed(3)
for _ in range(20):
    t = HalfCreator(init_depth=(1, 4), function_set=[f_add, f_neg], terminal_set=["x", 1]).create_individuals(16, True)
    for g in range(4):
        assert all(i.depth() <= g + 1 for i in t[4 * g:4 * g + 2]), [i.depth() for i in t]
''')

bug("C14-mutation-depth", "C14",
    [("eckity/genetic_operators/mutations/subtree_mutation.py", "init_depth=self.init_depth,", "init_depth=(0, self.init_depth[1]),")],
    "a subtree mutation with a minimal depth above 0 and a random draw that prunes above it",
    "freshly grown subtrees have leaves above the mutation's minimal depth", '''
random.seed(3)
for _ in range(40):
    t = Tree(fitness=GPFitness(), function_set=[f_add], terminal_set=["x"], tree=[TerminalNode("x")])
    SubtreeMutation(init_depth=(2, 3)).apply_operator([t])
    assert t.depth() >= 2
''')

bug("C15-erc-some", "C15",
    [("eckity/genetic_operators/mutations/erc_mutation.py", "        if None in leaves:\n            return False, individuals\n",
      "        leaves = [leaf for leaf in leaves if leaf is not None]\n        if not leaves:\n            return False, individuals\n")],
    "a constant mutation of several trees, one of which has no constant",
    "the other trees are changed although the operator could not be applied to all", '''
def tree(v):
    return Tree(fitness=GPFitness(), function_set=[f_add], terminal_set=["x"], tree=[FunctionNode(f_add), TerminalNode("x"), TerminalNode(v)])
a, b = tree(1.5), tree("x")
ERCMutation(arity=2).apply_operator([a, b])
assert a.tree[2].value == 1.5
''')

bug("C16-ten-columns", "C16",
    [("eckity/genetic_encodings/gp/tree/utils.py", 'return {f"x{i}": X[:, i] for i in range(X.shape[1])}', 'return dict(zip(sorted(f"x{i}" for i in range(X.shape[1])), X.T))')],
    "an array with more than ten columns",
    "x2 and later variables are bound to other columns (x10 sorts before x2)", '''
X = np.arange(24.0).reshape(2, 12)
t = Tree(fitness=GPFitness(), function_set=[f_add], terminal_set=[f"x{i}" for i in range(12)], tree=[FunctionNode(f_add), TerminalNode("x2"), TerminalNode("x11")])
assert list(t.execute(X)) == list(X[:, 2] + X[:, 11])
''')

bug("C17-cached-first-score", "C17",
    [("eckity/fitness/simple_fitness.py", "        self.fitness = fitness\n        self._is_evaluated = True", "        if not (self.cache and self._is_evaluated):\n            self.fitness = fitness\n        self._is_evaluated = True")],
    "a cached fitness that is set again while it is evaluated",
    "the new score is ignored", '''
f = SimpleFitness(higher_is_better=True, cache=True)
f.set_fitness(1.0); f.set_fitness(2.0)
assert f.get_pure_fitness() == 2.0
''')

bug("C18-crowding-when-cut", "C18",
    [("eckity/multi_objective_evolution/nsga2_front_sorting.py", "\t\t\tself._calc_fronts_crowding(new_pareto_front)\n", ""),
     ("eckity/multi_objective_evolution/nsga2_front_sorting.py", "\t\t\t\tnew_pareto_front.sort(key=lambda x: x.fitness.crowding, reverse=True)",
      "\t\t\t\tself._calc_fronts_crowding(new_pareto_front)\n\t\t\t\tnew_pareto_front.sort(key=lambda x: x.fitness.crowding, reverse=True)")],
    "a front that fits as a whole",
    "the crowding distance of its members is never computed", '''
from eckity.multi_objective_evolution.nsga2_front_sorting import NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
def ind(p):
    return BitStringVector(NSGA2Fitness(p, higher_is_better=True), length=1, vector=[0])
pts = [[0, 2], [1, 1], [2, 0], [0, 0], [-1, -1], [-2, -2]]
sp = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=1), population_size=3, individuals=[ind(p) for p in pts], operators_sequence=[])
NSGA2FrontSorting().select_for_population(Population([sp]))
assert sorted(i.fitness.crowding for i in sp.individuals) == [2.0, float("inf"), float("inf")]
''')

bug("C19-shorter-accepted", "C19",
    [("eckity/multi_objective_evolution/nsga2_fitness.py", "if len(other_fitness.get_augmented_fitness(other_ind)) != len(", "if len(other_fitness.get_augmented_fitness(other_ind)) > len(")],
    "comparing with a fitness that has fewer objectives",
    "the comparison is accepted and looks at a part of the objectives only", '''
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
a, b = NSGA2Fitness([1, 2, 3], higher_is_better=True), NSGA2Fitness([0, 0], higher_is_better=True)
try:
    a.dominate(None, b, None)
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

bug("C20-after-when-result", "C20",
    [("eckity/before_after_publisher.py", "        self.publish(AFTER_OPERATOR_EVENT_NAME)", "        if return_val is not None:\n            self.publish(AFTER_OPERATOR_EVENT_NAME)")],
    "an operator that returns nothing (a breeder, an algorithm)",
    "after_operator is not published", '''
n = []
algo = SimpleEvolution(Subpopulation(Sum(), creators=GABitStringVectorCreator(length=2), population_size=4, higher_is_better=True,
    operators_sequence=[IdentityTransformation()]), max_generation=1, executor="thread")
algo.register("after_operator", lambda s, d: n.append(1))
algo.act()
assert n == [1]
''')

bug("C21-own-rng-lost", "C21",
    [("eckity/algorithms/algorithm.py", "        self.__dict__.update(state)\n", "        self.__dict__.update(state, random_generator=RNG())\n")],
    "an algorithm with a random generator of the user's own class, copied before its run",
    "the copy seeds with the default generator and evolves differently", '''
class Shifted(RNG):
    def set_seed(self, seed):
        super().set_seed((seed * 7 + 1) % 2**32)
from eckity.random import RNG
class Shifted(RNG):
    def set_seed(self, seed):
        super().set_seed((seed * 7 + 1) % 2**32)
algo = SimpleEvolution(Subpopulation(Sum(), creators=GABitStringVectorCreator(length=9), population_size=4, higher_is_better=True,
    operators_sequence=[BitStringVectorFlipMutation()]), max_generation=2, executor="thread", random_seed=5, random_generator=Shifted())
c = copy.deepcopy(algo)
algo.evolve(); c.evolve()
assert [i.vector for i in algo.population.sub_populations[0].individuals] == [i.vector for i in c.population.sub_populations[0].individuals]
'''.replace('''class Shifted(RNG):
    def set_seed(self, seed):
        super().set_seed((seed * 7 + 1) % 2**32)
from eckity.random import RNG''', 'from eckity.random import RNG', 1))

bug("C22-rounded-probabilities", "C22",
    [("eckity/sklearn_compatible/classification_evaluator.py", "probs = sigmoid(individual.execute(self.X))", "probs = np.round(sigmoid(individual.execute(self.X)), 2)")],
    "an output whose sigmoid is just below or above a class threshold",
    "outputs close to a threshold get the label of the neighbouring class", '''
from eckity.sklearn_compatible import ClassificationEvaluator
t = Tree(fitness=GPFitness(), function_set=[f_add], terminal_set=["x0"], tree=[TerminalNode("x0")])
X = np.array([[-0.01], [0.01], [-5.0], [5.0]])
ev = ClassificationEvaluator(X=X, y=np.array([0, 1, 0, 1]), n_classes=2)
assert list(ev.classify_individual(t)) == [0, 1, 0, 1]
''')

bug("C23-worst-pure", "C23",
    [("eckity/subpopulation.py", "            key=lambda ind: ind.get_augmented_fitness(),\n            reverse=not self.higher_is_better,", "            key=lambda ind: ind.get_pure_fitness(),\n            reverse=not self.higher_is_better,")],
    "a bloat weight, so that the worst by pure fitness is not the worst by augmented fitness",
    "the reported worst is not the worst individual", '''
def tree(n, f):
    return Tree(fitness=GPFitness(fitness=f, bloat_weight=1.0, higher_is_better=True), function_set=[f_add], terminal_set=["x"],
                tree=[FunctionNode(f_add)] * n + [TerminalNode("x")] * (n + 1))
inds = [tree(0, 5.0), tree(6, 8.0), tree(1, 6.0)]
sp = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=1), population_size=3, individuals=inds, operators_sequence=[], higher_is_better=True)
assert sp.get_worst_individual() is inds[1]
''')

bug("C24-repeated-operator", "C24",
    [("eckity/genetic_operators/genetic_operator.py", "                ind.applied_operators.append(type(self).__name__)", "                if type(self).__name__ not in ind.applied_operators:\n                    ind.applied_operators.append(type(self).__name__)")],
    "an operator sequence in which one kind of operator is applied twice to an individual",
    "the second application is not recorded", '''
v = vec(BitStringVector, [0, 1], (0, 1))
for _ in range(2):
    BitStringVectorFlipMutation().apply_operator([v])
assert v.applied_operators == ["BitStringVectorFlipMutation"] * 2
''')

bug("C25-typed-if-scalar", "C25",
    [("eckity/base/typed_functions.py", '''    """if x > y return z else return w"""
    return np.where(x > y, z, w)''', '''    """if x > y return z else return w"""
    return np.where(x - y > 0, z, w)''')],
    "two infinite (or extremely large) arguments",
    "inf > -inf style comparisons through a difference give the wrong branch, or a NaN, for equal infinities or overflow", '''
assert float(tf.ifgt_floats(5e-324 * 3, 5e-324, 1.0, 2.0)) == 1.0
assert float(tf.ifgt_floats(np.float64(1e308), np.float64(-1e308), 1.0, 2.0)) == 1.0
assert int(tf.ifgt_floats(np.uint8(3), np.uint8(5), 1, 2)) == 2
''')

bug("C25-neg-zero-inverse", "C25",
    [("eckity/base/untyped_functions.py", '    return f_div(1, x)', '    return np.where(np.abs(x) > 0.001, np.power(np.where(x == 0, 1.0, x), -1.0), 0.0) if np.ndim(x) == 0 else np.where(x > 0.001, f_div(1, x), np.where(np.asarray(x) < -0.01, f_div(1, x), 0.0))')],
    "an array element between -0.01 and -0.001",
    "the inverse of small negative array elements is 0", '''
assert np.allclose(f_inv(np.array([-0.005, 2.0])), [-200.0, 0.5])
''')

bug("C26-first-entry-checked", "C26",
    [("eckity/algorithms/algorithm.py", "            for sub_pop in population:\n                if not isinstance(sub_pop, Subpopulation):", "            for sub_pop in population[:1]:\n                if not isinstance(sub_pop, Subpopulation):")],
    "a population list whose second entry is not a subpopulation",
    "the invalid list is accepted", '''
sp = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=2), population_size=4, operators_sequence=[IdentityTransformation()])
try:
    SimpleEvolution([sp, 7], max_generation=1, executor="thread")
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

bug("C26-selection-arity", "C26",
    [("eckity/breeders/simple_breeder.py", "for oper in operators:", "for oper in operators[: len(selection_methods) + 1]:")],
    "an operator sequence of at least two operators, the second of which has an arity the population size is no multiple of",
    "the run is not refused", '''
algo = SimpleEvolution(Subpopulation(Sum(), creators=GABitStringVectorCreator(length=4), population_size=5,
    operators_sequence=[BitStringVectorFlipMutation(), VectorKPointsCrossover()], selection_methods=[(TournamentSelection(2), 1)]), max_generation=1, executor="thread")
try:
    algo.evolve()
except ValueError:
    sys.exit(0)
sys.exit(1)
''')

bug("C27-direction-of-tests", "C27",
    [("eckity/subpopulation.py", "self.population_size, self.higher_is_better\n            )", "self.population_size,\n                self.higher_is_better or selected_creator is not self.creators[0],\n            )")],
    "several creators, of which not the first one is chosen, in a minimising subpopulation",
    "the individuals get a fitness of the wrong direction", '''
sp = Subpopulation(Sum(), creators=[GABitStringVectorCreator(length=2), GABitStringVectorCreator(length=3)], pcr=[0, 1], population_size=4, operators_sequence=[])
sp.create_subpopulation_individuals()
assert not any(i.fitness.higher_is_better for i in sp.individuals)
''')
bug("C11-last-position", "C11",
    [("eckity/genetic_operators/crossovers/vector_k_point_crossover.py", "            xo_points.append(len(vector1))", "            xo_points.append(len(vector1) - (self.k > 3))")],
    "an even number of more than three cut points",
    "the last cell is never exchanged, so the last cut is in the wrong place", '''
random.seed(1)
for k in (1, 2, 3, 4, 5):
    for _ in range(30):
        a, b = vec(IntVector, [0] * 7, (0, 1)), vec(IntVector, [1] * 7, (0, 1))
        VectorKPointsCrossover(k=k).apply_operator([a, b])
        assert all(x != y for x, y in zip(a.vector, b.vector))
        assert sum(a.vector[i] != a.vector[i + 1] for i in range(6)) == k
''')
