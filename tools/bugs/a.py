PRE = '''
import random, sys, os, pickle, copy
import numpy as np
import logging; logging.disable(logging.CRITICAL)
from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.subpopulation import Subpopulation
from eckity.population import Population
from eckity.breeders.simple_breeder import SimpleBreeder
from eckity.evaluators.simple_individual_evaluator import SimpleIndividualEvaluator
from eckity.evaluators.simple_population_evaluator import SimplePopulationEvaluator
from eckity.fitness.simple_fitness import SimpleFitness
from eckity.fitness.gp_fitness import GPFitness
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.creators.ga_creators.bit_string_vector_creator import GABitStringVectorCreator
from eckity.creators.ga_creators.float_vector_creator import GAFloatVectorCreator
from eckity.creators.ga_creators.int_vector_creator import GAIntVectorCreator
from eckity.creators.gp_creators.full import FullCreator
from eckity.creators.gp_creators.grow import GrowCreator
from eckity.creators.gp_creators.half import HalfCreator
from eckity.genetic_encodings.ga.bit_string_vector import BitStringVector
from eckity.genetic_encodings.ga.float_vector import FloatVector
from eckity.genetic_encodings.ga.int_vector import IntVector
from eckity.genetic_encodings.gp import Tree, FunctionNode, TerminalNode
from eckity.genetic_operators.crossovers.vector_k_point_crossover import VectorKPointsCrossover
from eckity.genetic_operators.crossovers.subtree_crossover import SubtreeCrossover
from eckity.genetic_operators.mutations.subtree_mutation import SubtreeMutation
from eckity.genetic_operators.mutations.erc_mutation import ERCMutation
from eckity.genetic_operators.mutations.identity_transformation import IdentityTransformation
from eckity.genetic_operators.mutations.vector_n_point_mutation import VectorNPointMutation
from eckity.genetic_operators.mutations.vector_random_mutation import *
from eckity.genetic_operators.selections.tournament_selection import TournamentSelection
from eckity.genetic_operators.selections.fp_selection import FitnessProportionateSelection
from eckity.genetic_operators.selections.elitism_selection import ElitismSelection
from eckity.base.untyped_functions import *
import random

class Sum(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return sum(ind.vector)

def vec(cls, cells, bounds, fit=None, hib=True, up=False):
    return cls(SimpleFitness(fit, higher_is_better=hib), length=len(cells), bounds=bounds, vector=list(cells), update_parents=up)
'''

BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=PRE + demo))


bug("C01-bloat-other-size", "C01",
    [("eckity/evaluators/simple_population_evaluator.py",
      "if ind.fitness.better_than(ind, best_fitness, best_ind):", "if ind.fitness.better_than(ind, best_fitness, ind):")],
    "trees with a bloat weight: an individual with a better pure but worse augmented fitness than the best",
    "the best of a generation is picked by pure fitness only, so the best-of-run individual can be worse (augmented) than one evaluated",
    '''
class Ev(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return 10 + 0.5 * ind.size()
def tree(n):
    t = Tree(fitness=GPFitness(bloat_weight=1.0, higher_is_better=True), function_set=[f_add], terminal_set=["x"])
    t.tree = [FunctionNode(f_add)] * n + [TerminalNode("x")] * (n + 1)
    return t
inds = [tree(1), tree(3), tree(2), tree(5)]
cr = FullCreator(function_set=[f_add], terminal_set=["x"])
algo = SimpleEvolution(Subpopulation(Ev(), creators=cr, population_size=4, individuals=inds, higher_is_better=True,
                       operators_sequence=[IdentityTransformation()],
                       selection_methods=[(TournamentSelection(2, higher_is_better=True), 1)]), max_generation=0, executor="thread")
algo.evolve()
b = algo.best_of_run_
assert all(b.get_augmented_fitness() >= i.get_augmented_fitness() for i in algo.population.sub_populations[0].individuals)
''')

bug("C02-truncated-elites", "C02",
    [("eckity/subpopulation.py", "self.n_elite = round(elitism_rate * self.population_size)",
      "self.n_elite = int(elitism_rate * self.population_size)")],
    "an elitism rate whose product with the population size is not whole (e.g. 0.15 of 10... 1.75)",
    "fewer elites than round(rate * size) are carried over", '''
sp = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=4), population_size=7, elitism_rate=0.4,
                   operators_sequence=[BitStringVectorFlipMutation()], higher_is_better=True,
                   selection_methods=[(TournamentSelection(1, higher_is_better=True), 1)])
random.seed(3)
algo = SimpleEvolution(sp, max_generation=6, executor="thread", random_seed=5)
prev = []
def cb(s, d):
    inds = d["population"].sub_populations[0].individuals
    if prev:
        top = sorted(prev[-1].values(), reverse=True)
        want = sorted(prev[-1], key=lambda i: -prev[-1][i])[:3]
        intact = [i for i in inds if not i.applied_operators]
        assert len(intact) == 3, len(intact)
    prev.append({i.id: i.get_pure_fitness() for i in inds})
algo.register("after_generation", cb)
algo.evolve()
''')

bug("C03-id-per-class", "C03",
    [("eckity/individual.py", "        self.id = Individual.id\n        Individual.id += 1", "        cls = type(self)\n        self.id = cls.id\n        cls.id += 1")],
    "individuals of two different types created in one process",
    "each individual class gets its own id counter, so individuals of different types share ids", '''
a = [vec(BitStringVector, [0, 1], (0, 1)) for _ in range(3)]
b = [vec(IntVector, [0, 1], (0, 5)) for _ in range(3)]
c = [x.clone() for x in a + b]
ids = [x.id for x in a + b + c]
assert len(set(ids)) == len(ids), ids
''')

bug("C04-as-completed", "C04",
    [("eckity/evaluators/simple_population_evaluator.py", "from eckity.evaluators.individual_evaluator import IndividualEvaluator\n",
      "from concurrent.futures import as_completed\n\nfrom eckity.evaluators.individual_evaluator import IndividualEvaluator\n"),
     ("eckity/evaluators/simple_population_evaluator.py", "eval_results = [future.result() for future in eval_futures]",
      "eval_results = [\n                future.result()\n                for future in as_completed(eval_futures)\n            ]")],
    "the submit method with evaluations finishing out of order",
    "scores are assigned in completion order, so individuals get each other's scores", '''
import time, threading
class Ev(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        time.sleep(0.2 - 0.05 * ind.vector[0])
        return float(ind.vector[0])
inds = [vec(IntVector, [i], (0, 9)) for i in range(4)]
from concurrent.futures import ThreadPoolExecutor
pe = SimplePopulationEvaluator(executor_method="submit")
sp = Subpopulation(Ev(), creators=GAIntVectorCreator(length=1), individuals=inds, population_size=4, operators_sequence=[], higher_is_better=True)
with ThreadPoolExecutor(4) as ex:
    pe.set_executor(ex)
    pe.act(Population([sp]))
assert [i.get_pure_fitness() for i in inds] == [0., 1., 2., 3.], [i.get_pure_fitness() for i in inds]
''')

bug("C04-skip-evaluated", "C04",
    [("eckity/evaluators/simple_population_evaluator.py", "        individuals = sub_population.individuals\n",
      "        individuals = sub_population.individuals\n        pending = [\n            ind for ind in individuals\n            if not (ind.fitness.cache and ind.fitness.is_fitness_evaluated())\n        ]\n"),
     ("eckity/evaluators/simple_population_evaluator.py",
      "            eval_results = self.executor.map(\n                sp_eval.evaluate_individual, sub_population.individuals\n            )",
      "            eval_results = self.executor.map(\n                sp_eval.evaluate_individual, pending\n            )"),
     ("eckity/evaluators/simple_population_evaluator.py",
      "for ind in sub_population.individuals\n            ]", "for ind in pending\n            ]"),
     ("eckity/evaluators/simple_population_evaluator.py",
      "        for ind, fitness_score in zip(\n            sub_population.individuals, eval_results\n        ):",
      "        for ind, fitness_score in zip(pending, eval_results):")],
    "cached fitness and an evaluator whose score for a genome changed (new data), or counting evaluations",
    "an individual whose cached fitness is still set is not evaluated in a population evaluation", '''
from concurrent.futures import ThreadPoolExecutor
n = []
class Ev(SimpleIndividualEvaluator):
    off = 0
    def evaluate_individual(self, ind):
        n.append(1)
        return float(ind.vector[0] + self.off)
inds = [IntVector(SimpleFitness(higher_is_better=True, cache=True), length=1, bounds=(0, 9), vector=[i]) for i in range(4)]
pe, ev = SimplePopulationEvaluator(), Ev()
sp = Subpopulation(ev, creators=GAIntVectorCreator(length=1), individuals=inds, population_size=4, operators_sequence=[], higher_is_better=True)
with ThreadPoolExecutor(2) as ex:
    pe.set_executor(ex)
    pe.act(Population([sp]))
    ev.off = 10
    pe.act(Population([sp]))
assert [i.get_pure_fitness() for i in inds] == [10., 11., 12., 13.] and len(n) == 8
''')

bug("C05-seed-wrap", "C05",
    [("eckity/algorithms/algorithm.py", "return (self.generation_seed + 1) % (2**32)", "return (self.generation_seed + 1) % (2**32 - 1)")],
    "a generation seed reaching 2**32 - 1",
    "the generation seed 2**32-1 is skipped (0 is used)", '''
from eckity.random import RNG
class R(RNG):
    seen = []
    def set_seed(self, s):
        super().set_seed(s); R.seen.append(s)
sp = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=4), population_size=4,
                   operators_sequence=[BitStringVectorFlipMutation()], higher_is_better=True,
                   selection_methods=[(TournamentSelection(2, higher_is_better=True), 1)])
algo = SimpleEvolution(sp, max_generation=3, executor="thread", random_seed=7, generation_seed=2**32 - 3, random_generator=R())
algo.evolve()
assert R.seen == [7, 2**32 - 2, 2**32 - 1, 0], R.seen
''')

bug("C05-seed-zero", "C05",
    [("eckity/random/rng.py", "        self._seed = seed\n        random.seed(seed)\n        np.random.seed(seed)",
      "        self._seed = seed\n        random.seed(seed)\n        if seed:\n            np.random.seed(seed)")],
    "seed 0 and an operator drawing from numpy's generator",
    "seed 0 leaves numpy's global generator unseeded", '''
def run(pollute):
    np.random.seed(pollute)
    sp = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=6), population_size=6,
                   operators_sequence=[BitStringVectorFlipMutation()], higher_is_better=True,
                   selection_methods=[(FitnessProportionateSelection(higher_is_better=True), 1)])
    algo = SimpleEvolution(sp, max_generation=1, executor="thread", random_seed=0)
    algo.evolve()
    return [i.vector for i in algo.population.sub_populations[0].individuals]
assert run(1) == run(2)
''')

bug("C05-hash-order", "C05",
    [("eckity/genetic_encodings/gp/tree/tree_individual.py", "        terminal = random.choice(relevant_terminals)\n",
      "        # do not favour terminals that are listed twice\n        terminal = random.choice(list(set(relevant_terminals)))\n"),
     ("eckity/genetic_encodings/gp/tree/tree_individual.py", "        # Return None in case there are no terminals of the given type\n        if not relevant_terminals:\n            return None\n",
      "        # Return None in case there are no terminals of the given type\n        if len(relevant_terminals) == 0:\n            return None\n")],
    "two processes with different hash randomisation",
    "terminals are drawn from a set of strings, whose order depends on PYTHONHASHSEED", '''
import subprocess
if len(sys.argv) > 1:
    random.seed(5)
    t = FullCreator(init_depth=(2, 4), function_set=[f_add, f_mul], terminal_set=["x", "y", "z", "w", "v"]).create_individuals(3, True)
    print([[str(n) for n in i.tree] for i in t])
else:
    outs = {subprocess.run([sys.executable, __file__, "c"], env=dict(os.environ, PYTHONHASHSEED=str(h)), capture_output=True, text=True, check=True).stdout for h in range(1, 6)}
    assert len(outs) == 1, outs
''')

bug("C06-gen-off-by-one", "C06",
    [("eckity/algorithms/algorithm.py",
      "            if self.should_terminate(self.population, self.best_of_run_, gen):\n                self.publish(\"after_generation\")\n                break\n            self.publish(\"after_generation\")",
      "            done = self.should_terminate(\n                self.population, self.best_of_run_, gen\n            )\n            if done and gen == self.max_generation:\n                break\n            self.publish(\"after_generation\")\n            if done:\n                break")],
    "a termination checker that fires in the very last permitted generation",
    "after_generation is not published for the last generation when termination is requested in it", '''
from eckity.termination_checkers import TerminationChecker
class T(TerminationChecker):
    def should_terminate(self, p, b, g):
        return g >= 3
sp = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=4), population_size=4,
                   operators_sequence=[BitStringVectorFlipMutation()], higher_is_better=True,
                   selection_methods=[(TournamentSelection(2, higher_is_better=True), 1)])
algo = SimpleEvolution(sp, max_generation=3, executor="thread", random_seed=7, termination_checker=T())
g = []
algo.register("after_generation", lambda s, d: g.append(d["generation_num"]))
algo.evolve()
assert g == [1, 2, 3], g
''')

bug("C07-stale-stagnation", "C07",
    [("eckity/termination_checkers/best_fitness_stagnation_termination_checker.py",
      "            self.stagnation_generations = 0\n            self.best_fitnesses = best_fitnesses\n            return False",
      "            if self.best_fitnesses is None or best_fitnesses > self.best_fitnesses:\n                self.stagnation_generations = 0\n            self.best_fitnesses = best_fitnesses\n            return False")],
    "a best fitness that decreases (minimisation, or a run without elitism)",
    "the stagnation counter is only restarted when the best fitness grows", '''
from eckity.termination_checkers.best_fitness_stagnation_termination_checker import BestFitnessStagnationTerminationChecker as B
class P:
    def __init__(self, v): self.v = v
    def get_best_individuals(self): return [vec(IntVector, [1], (0, 9), fit=self.v, hib=False)]
c = B(2)
got = [c.should_terminate(P(v), None, 0) for v in [5, 5, 4, 4, 3, 3, 3]]
assert got == [False] * 6 + [True], got
''')

bug("C07-lazy-checkers", "C07",
    [("eckity/algorithms/algorithm.py",
      "            return any(\n                [\n                    t.should_terminate(\n                        population, best_of_run_, generation_num\n                    )\n                    for t in self.termination_checker\n                ]\n            )",
      "            return any(\n                t.should_terminate(population, best_of_run_, generation_num)\n                for t in self.termination_checker\n            )")],
    "several checkers, one that fires before the last in the list",
    "checkers after the first one that fires are not consulted", '''
from eckity.termination_checkers import TerminationChecker
class T(TerminationChecker):
    def __init__(self, at): self.at, self.seen = at, []
    def should_terminate(self, p, b, g):
        self.seen.append(g); return g >= self.at
ts = [T(9), T(2), T(9)]
sp = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=4), population_size=4,
                   operators_sequence=[BitStringVectorFlipMutation()], higher_is_better=True,
                   selection_methods=[(TournamentSelection(2, higher_is_better=True), 1)])
SimpleEvolution(sp, max_generation=5, executor="thread", random_seed=7, termination_checker=ts).evolve()
assert [t.seen for t in ts] == [[0, 1, 2]] * 3, [t.seen for t in ts]
''')

bug("C08-fp-smoothing", "C08",
    [("eckity/genetic_operators/selections/fp_selection.py", "smoothing = 1 if min_val == 0 else 0", "smoothing = 1 if min_val < 1 else 0")],
    "minimisation with a smallest fitness strictly between 0 and 1",
    "fitness-proportionate selection smooths when no fitness is 0, so probabilities are not proportional to the reciprocals", '''
random.seed(1); np.random.seed(1)
src = [vec(IntVector, [1], (0, 9), fit=f, hib=False) for f in (0.01, 1.0)] + [vec(IntVector, [2], (0, 9), fit=1.0, hib=False) for _ in range(98)]
first = 0
for _ in range(10):
    out = FitnessProportionateSelection(higher_is_better=False).select(src, [])
    first += sum(o.cloned_from == src[0].id for o in out)
# p = 100 / 199 of 1000 draws
assert 400 < first < 600, first
''')

bug("C09-shared-terminals", "C09",
    [("eckity/genetic_encodings/gp/tree/tree_node.py",
      "    def __str__(self):\n        return str(self.value)",
      "    def __deepcopy__(self, memo):\n        # the terminal itself holds no structure, share it between clones\n        return self\n\n    def __str__(self):\n        return f\"{self.value}\"")],
    "a constant of a clone changed by constant mutation",
    "clones share terminal nodes with the original, so constant mutation of one changes the other", '''
t = Tree(fitness=GPFitness(bloat_weight=0.0, higher_is_better=True), function_set=[f_add], terminal_set=["x", 1.0], erc_range=(0.0, 1.0))
t.tree = [FunctionNode(f_add), TerminalNode("x"), TerminalNode(0.5)]
c = t.clone()
random.seed(2)
ERCMutation().apply_operator([c])
assert t.tree[2].value == 0.5 and c.tree[2].value != 0.5
''')

bug("C10-last-cell", "C10",
    [("eckity/genetic_encodings/ga/vector_individual.py", "                if (self.vector[i] < self.bounds[i][0]) or (\n                    self.vector[i] > self.bounds[i][1]\n                ):",
      "                if (self.vector[i] < self.bounds[0][0]) or (\n                    self.vector[i] > self.bounds[i][1]\n                ):")],
    "bounds given per cell with different lower bounds, a value below its own lower bound",
    "the lower bound of cell 0 is used for every cell: out-of-bounds values are accepted", '''
v = vec(FloatVector, [0.5, 5.0, 6.0], [(0.0, 1.0), (5.0, 6.0), (-1.0, 7.0)])
assert v.check_if_in_bounds()
v.set_cell_value(1, 2.0)
assert not v.check_if_in_bounds()
v.vector = [0.5, 5.0, -0.5]
assert v.check_if_in_bounds()
''')

bug("C11-cut-points-repeat", "C11",
    [("eckity/genetic_operators/crossovers/vector_k_point_crossover.py", "        xo_points = sorted(sample(range(1, individuals[0].size()), self.k))",
      "        size = individuals[0].size()\n        xo_points = sorted(sample(range(1, size), min(self.k, size - 1)))")],
    "more cut points than inner positions",
    "asking for too many cut points silently uses fewer instead of being an error", '''
a, b = vec(IntVector, [1, 2, 3], (0, 9)), vec(IntVector, [4, 5, 6], (0, 9))
try:
    VectorKPointsCrossover(k=3).apply_operator([a, b])
except ValueError:
    pass
else:
    raise AssertionError("no error")
assert a.vector == [1, 2, 3] and b.vector == [4, 5, 6]
''')

bug("C12-fallback-one", "C12",
    [("eckity/genetic_operators/mutations/vector_random_mutation.py",
      "        mut = FloatVectorUniformNPointMutation(\n            self.n, self.probability, self.arity, self.events\n        )",
      "        mut = FloatVectorUniformOnePointMutation(\n            self.probability, self.arity, self.events\n        )")],
    "an n-point Gaussian mutation with n > 1 whose attempts all fail",
    "the fallback of the n-point Gaussian mutation re-draws one cell instead of n", '''
random.seed(1)
for _ in range(20):
    v = vec(FloatVector, [0.5] * 6, (0.0, 1.0))
    FloatVectorGaussNPointMutation(n=4, sigma=0.0, mu=1000.0).apply_operator([v])
    assert sum(c != 0.5 for c in v.vector) == 4, v.vector
''')

bug("C12-repeat-cells", "C12",
    [("eckity/genetic_operators/mutations/vector_n_point_mutation.py", "        return random.sample(vector_indices, k=self.n)",
      "        return random.choices(vector_indices, k=self.n)")],
    "an n-point mutation with n > 1 drawing the same cell twice",
    "n-point mutation may choose one cell several times and so re-draws fewer than n cells", '''
random.seed(1)
for _ in range(50):
    v = vec(FloatVector, [0.5] * 6, (0.0, 1.0))
    FloatVectorUniformNPointMutation(n=3).apply_operator([v])
    assert sum(c != 0.5 for c in v.vector) == 3, v.vector
''')

bug("C14-remainder-grow", "C14",
    [("eckity/creators/gp_creators/half.py", "            missing_inds = self.full_creator.create_individuals(", "            missing_inds = self.grow_creator.create_individuals(")],
    "a population size that is not a multiple of 2*(max-min+1)",
    "the remainder of a ramped half-and-half population is grown instead of full", '''
for seed in range(10):
    random.seed(seed)
    inds = HalfCreator(init_depth=(1, 3), function_set=[f_add, f_mul], terminal_set=["x", "y"]).create_individuals(11, True)
    assert len(inds) == 11
    for t in inds[6:]:
        pass
    full = sum(t.size() == 15 for t in inds)
    assert full >= 1 + 5, full
''')

bug("C15-direction", "C15",
    [("eckity/genetic_operators/crossovers/subtree_crossover.py", "                old_subtree=subtrees[i], new_subtree=subtrees[i - 1]\n",
      "                old_subtree=subtrees[i], new_subtree=subtrees[i - len(individuals) + 1]\n")],
    "a crossover of three or more trees",
    "subtrees are handed on in the opposite direction: tree i receives the subtree of tree i+1", '''
random.seed(4)
def leaf(v):
    t = Tree(fitness=GPFitness(bloat_weight=0.0, higher_is_better=True), function_set=[f_add], terminal_set=["x", "y", "z"])
    t.tree = [TerminalNode(v)]
    return t
ts = [leaf(v) for v in "xyz"]
SubtreeCrossover(arity=3).apply_operator(ts)
assert [t.tree[0].value for t in ts] == ["z", "x", "y"], [t.tree for t in ts]
''')

bug("C15-in-place", "C15",
    [("eckity/genetic_encodings/gp/tree/tree_individual.py",
      "        left_part = self.tree[:start_i]\n        right_part = self.tree[end_i:]\n        self.tree = left_part + new_subtree + right_part",
      "        self.tree[start_i:end_i] = new_subtree")],
    "the root of an untyped tree is picked, so that its subtree list is the tree itself",
    "replacing in place changes a picked subtree before it is handed on: nodes get lost and shared", '''
def mk(names):
    t = Tree(fitness=GPFitness(bloat_weight=0.0, higher_is_better=True), function_set=[f_add, f_mul], terminal_set=["x", "y", "z", "w"])
    t.tree = [FunctionNode(f_add)] + [TerminalNode(n) for n in names]
    return t
for seed in range(60):
    random.seed(seed)
    ts = [mk("xy"), mk("zw")]
    before = sorted(id(n) for t in ts for n in t.tree)
    keep = [n for t in ts for n in t.tree]
    SubtreeCrossover().apply_operator(ts)
    after = sorted(id(n) for t in ts for n in t.tree)
    assert before == after, (seed, ts)
''')

bug("C16-number-only", "C16",
    [("eckity/genetic_encodings/gp/tree/tree_individual.py", "        if reshape and (isinstance(res, Number) or res.shape == np.shape(0)):",
      "        if reshape and isinstance(res, Number):")],
    "a tree of constants whose root yields a 0-d array (protected division, conditionals)",
    "executing such a constant tree on a 2-d array yields a 0-d array instead of one value per row", '''
t = Tree(fitness=GPFitness(bloat_weight=0.0, higher_is_better=True), function_set=[f_div], terminal_set=["x0", 6.0, 2.0])
t.tree = [FunctionNode(f_div), TerminalNode(6.0), TerminalNode(2.0)]
r = t.execute(np.ones((4, 1)))
assert np.shape(r) == (4,) and (r == 3.0).all(), r
''')

bug("C17-relative-cache", "C17",
    [("eckity/fitness/fitness.py", "self.cache = False if is_relative_fitness else cache", "self.cache = cache")],
    "a relative fitness with caching asked for, copied or pickled",
    "copies of a relative fitness keep the score", '''
f = SimpleFitness(3.0, higher_is_better=True, cache=True, is_relative_fitness=True)
g = copy.deepcopy(f)
try:
    v = g.get_pure_fitness()
except ValueError:
    v = None
assert v is None, v
''')

bug("C17-equal-pure", "C17",
    [("eckity/fitness/simple_fitness.py",
      "        return self.get_augmented_fitness(ind) == other_fitness.get_augmented_fitness(\n            other_ind\n        )",
      "        return self.get_pure_fitness() == other_fitness.get_pure_fitness()")],
    "trees of different sizes with a bloat weight",
    "equality of fitness ignores bloat control", '''
def tree(n, f):
    t = Tree(fitness=GPFitness(f, bloat_weight=1.0, higher_is_better=False), function_set=[f_add], terminal_set=["x"])
    t.tree = [FunctionNode(f_add)] * n + [TerminalNode("x")] * (n + 1)
    return t
a, b, c = tree(0, 5.0), tree(1, 5.0), tree(1, 3.0)
assert not a.fitness.equal_to(a, b.fitness, b) and a.fitness.equal_to(a, c.fitness, c)
''')

bug("C18-ends-first-objective", "C18",
    [("eckity/multi_objective_evolution/nsga2_front_sorting.py",
      "\t\t\tfront[0].fitness.crowding = float(\"inf\")\n\t\t\tfront[-1].fitness.crowding = float(\"inf\")\n",
      "\t\t\tif objective_index < 2:\n\t\t\t\tfront[0].fitness.crowding = float(\"inf\")\n\t\t\t\tfront[-1].fitness.crowding = float(\"inf\")\n")],
    "three or more objectives",
    "the ends of the third and later objectives get a finite crowding distance", '''
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.multi_objective_evolution.nsga2_front_sorting import NSGA2FrontSorting
fits = [(0, 9, 5), (9, 0, 5), (4, 4, 9), (5, 5, 0), (4.5, 4.5, 4)]
inds = [IntVector(NSGA2Fitness(list(f), higher_is_better=True), length=1, bounds=(0, 9), vector=[0]) for f in fits]
sp = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1), individuals=inds, population_size=5, operators_sequence=[])
NSGA2FrontSorting().select_for_population(Population([sp]), 5)
for i in inds[:4]:
    assert i.fitness.crowding == float("inf"), [x.fitness.crowding for x in inds]
''')

bug("C19-mixed-directions", "C19",
    [("eckity/multi_objective_evolution/nsga2_fitness.py",
      "                self._o1_better_then_o2(o1, o2, h_is_b)\n                for h_is_b, o1, o2 in zip(self.higher_is_better, self_fit, other_fit)",
      "                self._o1_better_then_o2(o1, o2, self.higher_is_better[0])\n                for o1, o2 in zip(self_fit, other_fit)")],
    "objectives with different directions, better only in one whose direction differs from the first",
    "strict improvement is judged in the first objective's direction for every objective", '''
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
def ind(f):
    return IntVector(NSGA2Fitness(list(f), higher_is_better=[True, False]), length=1, bounds=(0, 9), vector=[0])
a, b = ind((1, 2)), ind((1, 3))
assert a.fitness.dominate(a, b.fitness, b) and not b.fitness.dominate(b, a.fitness, a)
''')

bug("C20-handle-reuse", "C20",
    [("eckity/before_after_publisher.py",
      "        self._get_subscribers(event)[self.customers_id] = callback\n        self.customers_id += 1\n        return self.customers_id - 1",
      "        subscribers = self._get_subscribers(event)\n        self.customers_id = len(subscribers)\n        subscribers[self.customers_id] = callback\n        return self.customers_id")],
    "registering after an earlier subscriber of the same event was unregistered",
    "a handle is reused, so a new subscriber overwrites an existing one", '''
op = IdentityTransformation()
seen = []
h = [op.register("before_operator", lambda s, d, k=k: seen.append(k)) for k in range(3)]
op.unregister("before_operator", h[0])
op.register("before_operator", lambda s, d: seen.append(3))
op.act([vec(IntVector, [1], (0, 9))])
assert seen == [1, 2, 3], seen
''')

bug("C21-generation-seed-lost", "C21",
    [("eckity/algorithms/algorithm.py", "        self.__dict__.update(state)\n        if self._executor_type == \"thread\":",
      "        # the sequence of generation seeds starts anew\n        self.__dict__.update(\n            {k: v for k, v in state.items() if k != \"generation_seed\"}\n        )\n        self.generation_seed = self.random_seed\n        if self._executor_type == \"thread\":")],
    "an explicit generation seed, or a copy taken in the middle of a run",
    "a copy restarts its generation seeds from the random seed", '''
def mk():
    sp = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=8), population_size=6,
                   operators_sequence=[BitStringVectorFlipMutation()], higher_is_better=True,
                   selection_methods=[(TournamentSelection(2, higher_is_better=True), 1)])
    return SimpleEvolution(sp, max_generation=3, executor="thread", random_seed=7, generation_seed=99)
a = mk()
b = copy.deepcopy(a)
a.evolve(); b.evolve()
f = lambda x: [i.vector for i in x.population.sub_populations[0].individuals]
assert f(a) == f(b) and a.generation_seed == b.generation_seed
''')

bug("C22-metric-order", "C22",
    [("eckity/sklearn_compatible/regression_evaluator.py", "return self.metric(self.y, individual.execute(self.X))",
      "return self.metric(individual.execute(self.X), self.y)")],
    "a metric that is not symmetric in its arguments",
    "the metric is called with the outputs as the truth and the truth as the outputs", '''
from eckity.sklearn_compatible.regression_evaluator import RegressionEvaluator
t = Tree(fitness=GPFitness(bloat_weight=0.0, higher_is_better=True), function_set=[f_add], terminal_set=["x0"])
t.tree = [FunctionNode(f_add), TerminalNode("x0"), TerminalNode("x0")]
ev = RegressionEvaluator(metric=lambda y_true, y_pred: float(np.sum(y_true - y_pred)))
ev.set_context((np.array([[1.], [2.]]), np.array([10., 10.])))
assert ev.evaluate_individual(t) == 14.0
''')

bug("C22-threshold-right", "C22",
    [("eckity/sklearn_compatible/classification_evaluator.py", "return np.digitize(probs, thresholds)", "return np.digitize(probs, thresholds, right=True)")],
    "an output whose sigmoid is exactly a threshold (0 with two classes)",
    "an output reaching a threshold exactly gets the label below it", '''
from eckity.sklearn_compatible.classification_evaluator import ClassificationEvaluator
t = Tree(fitness=GPFitness(bloat_weight=0.0, higher_is_better=True), function_set=[f_sub], terminal_set=["x0"])
t.tree = [FunctionNode(f_sub), TerminalNode("x0"), TerminalNode("x0")]
ev = ClassificationEvaluator(n_classes=2)
ev.set_context((np.array([[1.], [2.]]), None))
assert list(ev.classify_individual(t)) == [1, 1]
''')

bug("C23-augmented-mean", "C23",
    [("eckity/subpopulation.py", "            [indiv.get_pure_fitness() for indiv in self.individuals]", "            [indiv.get_augmented_fitness() for indiv in self.individuals]")],
    "trees with a bloat weight",
    "the reported average is of the augmented, not the pure, fitness", '''
def tree(n, f):
    t = Tree(fitness=GPFitness(f, bloat_weight=1.0, higher_is_better=True), function_set=[f_add], terminal_set=["x"])
    t.tree = [FunctionNode(f_add)] * n + [TerminalNode("x")] * (n + 1)
    return t
sp = Subpopulation(Sum(), creators=FullCreator(function_set=[f_add], terminal_set=["x"]), population_size=2, individuals=[tree(1, 4.0), tree(2, 8.0)], operators_sequence=[], higher_is_better=True)
assert sp.get_average_fitness() == 6.0
''')

bug("C24-overwritten-parents", "C24",
    [("eckity/genetic_operators/genetic_operator.py", "                    ind.parents.extend(parents)", "                    ind.parents = parents")],
    "parent tracking and two operators applied to one individual in a generation",
    "the parents of the last operator replace those of the earlier ones, and the offspring share one list", '''
a, b = vec(IntVector, [1, 2], (0, 9), up=True), vec(IntVector, [3, 4], (0, 9), up=True)
VectorKPointsCrossover().apply_operator([a, b])
IntVectorNPointMutation(n=1, probability=1.0).apply_operator([a])
assert a.parents == [a.id, b.id, a.id] and b.parents == [a.id, b.id], (a.parents, b.parents)
''')

bug("C25-log-boundary", "C25",
    [("eckity/base/typed_functions.py", "        return np.where(np.abs(x) > 0.001, np.log(np.abs(x)), 0.0)", "        return np.where(x > 0.001, np.log(np.abs(x)), 0.0)")],
    "a negative argument of the typed logarithm",
    "the typed protected logarithm is 0 for negative arguments", '''
from eckity.base.typed_functions import log_float
assert abs(float(log_float(-np.e)) - 1.0) < 1e-12
''')

bug("C26-zero-attempts", "C26",
    [("eckity/genetic_operators/failable_operator.py", "        if attempts < 1:", "        if attempts < 0:")],
    "an operator constructed with 0 attempts",
    "an operator that can never do anything (0 attempts) is accepted", '''
try:
    SubtreeCrossover(attempts=0)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
''')

bug("C27-full-prune-lost", "C27",
    [("eckity/subpopulation.py", "            selected_creator = random.choices(\n                self.creators, weights=self._pcr\n            )[0]",
      "            selected_creator = random.choices(\n                self.creators, cum_weights=np.cumsum(sorted(self._pcr))\n            )[0]")],
    "several creators whose probabilities are not in increasing order",
    "creators are chosen with the sorted probabilities, so one of probability 0 can be chosen", '''
class C(GABitStringVectorCreator): pass
a, b = GABitStringVectorCreator(length=3), GABitStringVectorCreator(length=5)
for seed in range(20):
    random.seed(seed)
    sp = Subpopulation(Sum(), creators=[a, b], pcr=[1, 0], population_size=4, operators_sequence=[])
    sp.create_subpopulation_individuals()
    assert len(sp.individuals[0].vector) == 3
''')
