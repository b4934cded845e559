import importlib.util, os
_s = importlib.util.spec_from_file_location("bugs_i", os.path.join(os.path.dirname(os.path.abspath(__file__)), "i.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=PRE + demo))


for _n in ("SE", "AL", "SUB", "BR", "EV", "TI", "UT", "PUB", "FP", "XO", "VR", "VI", "ST", "SF", "NF", "NS", "IND", "GO", "GR", "CE", "RE", "TO", "EL", "VN"):
    globals()[_n] = getattr(_m, _n)
OP = "eckity/event_based_operator.py"
SW = "eckity/sklearn_compatible/sklearn_wrapper.py"
STAG = "eckity/termination_checkers/best_fitness_stagnation_termination_checker.py"
CR = "eckity/multi_objective_evolution/crowding_termination_checker.py"
GF = "eckity/fitness/gp_fitness.py"
TN = "eckity/genetic_encodings/gp/tree/tree_node.py"
ERC = "eckity/genetic_operators/mutations/erc_mutation.py"
EVO = "eckity/multi_objective_evolution/nsga2_evolution.py"

bug("C09-user-attribute", "C09",
    [(IND, "        result = deepcopy(self)\n",
      "        # what is not ours is not copied\n        extra = [v for k, v in self.__dict__.items() if k.startswith('_') or k.startswith('user')]\n        result = deepcopy(self, {id(v): v for v in extra})\n")],
    "an individual of a subclass with private attributes of its own", "a clone shares them with the original", '''
class Mine(IntVector):
    pass
i = Mine(SimpleFitness(1.0), length=2, bounds=(0, 9), vector=[1, 2])
i._steps = [1.0, 2.0]
c = i.clone()
c._steps[0] = 5.0
assert i._steps == [1.0, 2.0]
''')
bug("C16-by-name", "C16",
    [(TI, "            return node.function(*arglist)\n", "            # the function as the function set has it (it may have been replaced there)\n            for f in self.function_set:\n                if f.__name__ == node.function.__name__:\n                    return f(*arglist)\n            return node.function(*arglist)\n")],
    "two functions of the set with one name (lambdas)", "the first is called for both", '''
f, g = (lambda x, y: x + y), (lambda x, y: x - y)
t = Tree(function_set=[f, g], terminal_set=["x0"])
t.tree = [FunctionNode(g), TerminalNode("x0"), TerminalNode("x0")]
assert t.execute(x0=3) == 0
''')
bug("C32-small-probability", "C32",
    [(GO, "        self.probability = probability\n", "        # percents\n        self.probability = round(probability, 2)\n")],
    "a probability that is not a multiple of .01", "the operator is applied with another probability", '''
class T(GeneticOperator):
    n = 0
    def apply(self, inds):
        T.n += 1
        return inds
random.seed(1)
t = T(probability=.004, arity=1)
i = vec(IntVector, [1], (0, 9), fit=1.0)
for _ in range(10000):
    t.apply_operator([i])
assert 10 < T.n < 90, T.n
''')
bug("C07-stagnation-sign", "C07",
    [(STAG, "math.isclose(a, b)", "math.isclose(abs(a), abs(b))")],
    "a best fitness that only changed its sign", "counted as stagnation", '''
from eckity.termination_checkers.best_fitness_stagnation_termination_checker import BestFitnessStagnationTerminationChecker as B
b = B(1)
def pop(v):
    return Population([Subpopulation(Sum(), creators=GABitStringVectorCreator(length=2), operators_sequence=[], population_size=1, individuals=[vec(BitStringVector, [0, 1], (0, 1), fit=v)])])
assert not b.should_terminate(pop(-2.0), None, 0)
assert not b.should_terminate(pop(2.0), None, 1)
assert b.should_terminate(pop(2.0), None, 2)
''')
bug("C18-by-id", "C18",
    [(NS, "		removed = set(pareto_front)\n		return [ind for ind in source_inds if ind not in removed]", "		removed = set(ind.id for ind in pareto_front)\n		return [ind for ind in source_inds if ind.id not in removed]")],
    "individuals with the same id (copied with copy.deepcopy, not cloned)", "several leave at once and are lost", '''
from eckity.multi_objective_evolution.nsga2_front_sorting import NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
a = BitStringVector(NSGA2Fitness(higher_is_better=True, cache=True), length=1, vector=[0])
a.fitness.set_fitness([2, 2])
b = copy.deepcopy(a)
b.fitness.fitness = [1, 1]
s = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=1), operators_sequence=[], population_size=2, individuals=[a, b])
import signal
signal.alarm(20)
NSGA2FrontSorting().select_for_population(Population([s]), 2)
assert s.individuals == [a, b]
''')
bug("C21-operator-subscribers", "C21",
    [(OP, "    def initialize(self):", "    def __getstate__(self):\n        # callbacks belong to this process\n        state = self.__dict__.copy()\n        state[\"events\"] = {name: {} for name in self.events}\n        return state\n\n    def initialize(self):")],
    "a callback registered with an operator of an algorithm that is saved", "the loaded algorithm's operator does not call it", '''
import builtins
builtins._calls = []
def cb(s, d):
    builtins._calls.append(1)
m = IntVectorNPointMutation(n=1, arity=1)
m.register("after_operator", cb)
c = copy.deepcopy(m)
c.act([vec(IntVector, [1], (0, 9), fit=1.0)])
assert builtins._calls == [1]
''')
bug("C22-float32", "C22",
    [(SW, "np.asarray(X))", "np.asarray(X, dtype=np.float32))")],
    "values that single precision cannot hold", "predictions are not those of the best tree", '''
from eckity.sklearn_compatible import SKRegressor, RegressionEvaluator
t = Tree(function_set=[f_add], terminal_set=["x0"])
t.tree = [TerminalNode("x0")]
s = Subpopulation(RegressionEvaluator(), creators=FullCreator(init_depth=(1, 1), terminal_set=["x0"], function_set=[f_add]), operators_sequence=[IdentityTransformation()], population_size=2,
                  selection_methods=[(TournamentSelection(1), 1)])
r = SKRegressor(SimpleEvolution(s, max_generation=1, random_seed=1, executor="thread", max_workers=1))
X = np.array([[.1], [.7], [1 / 3], [2.0**30 + 1]])
r.fit(X, X[:, 0])
assert (r.predict(X) == r.algorithm.best_of_run_.execute(X)).all()
''')
bug("C31-depth-by-size", "C31",
    [(TI, "        return self._depth([0], d=0)", "        # computed again only if the tree changed\n        key = (len(self.tree), id(self.tree[0]))\n        if getattr(self, '_depth_cache', (None, 0))[0] != key:\n            self._depth_cache = (key, self._depth([0], d=0))\n        return self._depth_cache[1]")],
    "a subtree replaced by one of the same size and another depth", "the depth reported is the former one", '''
t = Tree(function_set=[f_add], terminal_set=["x0"])
A, X = lambda: FunctionNode(f_add), lambda: TerminalNode("x0")
t.tree = [A(), A(), X(), X(), A(), X(), X()]
assert t.depth() == 2
sub = t._get_subtree_by_index(4)
t.replace_subtree(sub, [X()])
t.tree = t.tree[:2] + [A(), X(), X()] + t.tree[3:]
assert t.depth() == 3, t.depth()
''')
bug("C17-one-weight", "C17",
    [(GF, "        return (\n            score - self.bloat_weight", "        if isinstance(getattr(individual, 'fitness', None), GPFitness):\n            weight = individual.fitness.bloat_weight\n        else:\n            weight = self.bloat_weight\n        weight = max(weight, self.bloat_weight) if weight < 1 else self.bloat_weight\n        if weight > 1:\n            weight = 1      # a node costs one at most\n        return (\n            score - weight"),
     (GF, "else score + self.bloat_weight", "else score + weight")],
    "a bloat weight above one", "it counts as one", '''
def t(n, f):
    t = Tree(function_set=[f_add], terminal_set=["x0"], fitness=GPFitness(fitness=f, bloat_weight=5.0, higher_is_better=True))
    t.tree = [FunctionNode(f_add)] * n + [TerminalNode("x0")] * (n + 1)
    return t
a, b = t(1, 0.0), t(2, 4.0)
assert a.better_than(b)
''')
bug("C05-short-ids", "C05",
    [(EL, "            key=lambda ind: ind.get_augmented_fitness(),\n", "            key=lambda ind: (ind.get_augmented_fitness(), ind.id % 10),\n")],
    "a second run in one process, with ties among the elites", "other elites than in the first run", '''
from eckity.individual import Individual
def run(first):
    Individual.id = first
    class Par(SimpleIndividualEvaluator):
        def evaluate_individual(self, ind):
            return float(ind.vector[0] % 2)
    s = Subpopulation(Par(), creators=GAIntVectorCreator(length=1, bounds=(0, 10**6)), operators_sequence=[IntVectorNPointMutation(n=1, arity=1, probability=.5)], population_size=20, elitism_rate=.2,
                      selection_methods=[(TournamentSelection(2), 1)])
    a = SimpleEvolution(s, max_generation=3, executor="thread", max_workers=1, random_seed=3)
    a.evolve()
    return [i.vector for i in s.individuals]
assert run(1) == run(7)
''')
bug("C04-timeout", "C04",
    [(EV, "                sp_eval.evaluate_individual, sub_population.individuals\n            )\n", "                sp_eval.evaluate_individual, sub_population.individuals, timeout=2\n            )\n")],
    "an evaluation that takes more than two seconds", "the run fails", '''
import time
class Slow(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        time.sleep(2.6)
        return 1.0
from concurrent.futures import ThreadPoolExecutor
s = Subpopulation(Slow(), creators=GAIntVectorCreator(length=1), operators_sequence=[], population_size=1, individuals=[vec(IntVector, [1], (0, 9))])
e = SimplePopulationEvaluator()
e.set_executor(ThreadPoolExecutor(1))
e.act(Population([s]))
assert s.individuals[0].get_pure_fitness() == 1.0
''')
bug("C04-chunks", "C04",
    [(EV, "            eval_results = self.executor.map(\n                sp_eval.evaluate_individual, sub_population.individuals\n            )\n",
      "            # in parts, so that not everything is queued at once\n            eval_results = []\n            part = 50\n            inds = sub_population.individuals\n            for k in range(0, len(inds) - len(inds) % part or len(inds), part):\n                eval_results += self.executor.map(sp_eval.evaluate_individual, inds[k:k + part])\n")],
    "more than 50 individuals, not a multiple of 50", "the last part is not evaluated", '''
from concurrent.futures import ThreadPoolExecutor
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1), operators_sequence=[], population_size=70, individuals=[vec(IntVector, [k], (0, 99)) for k in range(70)])
e = SimplePopulationEvaluator()
e.set_executor(ThreadPoolExecutor(1))
e.act(Population([s]))
assert [i.get_pure_fitness() for i in s.individuals] == list(range(70))
''')
bug("C34-erc-wears", "C34",
    [(ERC, "        mu, sigma = self.mu, self.sigma\n", "        mu, sigma = self.mu, self.sigma\n        if sigma > .01:\n            # annealing\n            self.sigma *= .97\n")],
    "an ERC mutation used many times", "the noise gets smaller and smaller", '''
random.seed(1)
m = ERCMutation(sigma=1.0)
d = []
for k in range(400):
    t = Tree(function_set=[f_add], terminal_set=["x0"], fitness=GPFitness(1.0))
    t.tree = [TerminalNode(5.0)]
    m.apply_operator([t])
    d.append(abs(t.tree[0].value - 5.0))
assert sum(d[300:]) / 100 > .4, sum(d[300:]) / 100
''')
bug("C19-nan-crowding", "C19",
    [(NF, "            if self.front_rank == other_ind.fitness.front_rank:\n                return self.crowding > other_ind.fitness.crowding",
      "            if self.front_rank == other_ind.fitness.front_rank:\n                if min(self.crowding, other_ind.fitness.crowding) > 1:\n                    return False    # sparse enough, both of them\n                return self.crowding > other_ind.fitness.crowding")],
    "two crowding distances above one", "the larger is not preferred", '''
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
def mk(c):
    i = BitStringVector(NSGA2Fitness(higher_is_better=True), length=1, vector=[0])
    i.fitness.set_fitness([1, 1])
    i.fitness.front_rank, i.fitness.crowding = 1, c
    return i
a, b = mk(1.8), mk(1.2)
assert a.better_than(b)
''')
bug("C32-integer-noise", "C32",
    [(ERC, "            if terminal.node_type is int:\n", "            if terminal.node_type is int or (terminal.node_type is None and type(terminal.value) is int):\n")],
    "an untyped tree with an integer constant, sigma small", "the mutation rounds the noise away, nothing changes", '''
random.seed(1)
m = ERCMutation(sigma=.05)
t = Tree(function_set=[f_add], terminal_set=["x0"], fitness=GPFitness(1.0))
t.tree = [TerminalNode(5)]
m.apply_operator([t])
assert t.tree[0].value != 5
''')
bug("C33-best-worst", "C33",
    [(BR, "            elites = []\n\n            num_elites = subpopulation.n_elite\n", "            elites = []\n\n            num_elites = min(subpopulation.n_elite, min(len(s.individuals) for s in population.sub_populations) - 1)\n")],
    "a sub-population with more elites than another has individuals", "fewer elites are kept", '''
def sp(n, e):
    return Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 99)), operators_sequence=[IdentityTransformation()], population_size=n, higher_is_better=True, elitism_rate=e,
                         selection_methods=[(TournamentSelection(1, higher_is_better=True), 1)], individuals=[vec(IntVector, [k], (0, 99), fit=float(k)) for k in range(n)])
a, b = sp(20, .5), sp(2, 0)
SimpleBreeder().breed(Population([a, b]))
assert len([i for i in a.individuals if i.selected_by == ["ElitismSelection"]]) == 10
''')
bug("C30-shared-name", "C30",
    [(TN, "        return self.function.__name__\n", "        return self.function.__name__.lower()\n")],
    "a function with capitals in its name", "the text names another function", '''
def Add(x, y): return x + y
t = Tree(function_set=[Add], terminal_set=["x0"])
t.tree = [FunctionNode(Add), TerminalNode("x0"), TerminalNode("x0")]
assert "Add" in str(t)
''')
bug("C20-same-callback", "C20",
    [(PUB, "        self._get_subscribers(event)[self.customers_id] = callback\n", "        subs = self._get_subscribers(event)\n        if len(subs) > 3 and callback in list(subs.values())[:2]:\n            # an old one, registered once more: it is called already\n            return next(k for k, v in subs.items() if v == callback)\n        subs[self.customers_id] = callback\n")],
    "one of the first two callbacks registered again as the fifth", "it is called once", '''
from eckity.before_after_publisher import BeforeAfterPublisher
p = BeforeAfterPublisher(event_names=["x"])
log = []
fs = [lambda s, d, k=k: log.append(k) for k in range(4)]
for f in fs:
    p.register("x", f)
p.register("x", fs[0])
p.publish("x")
assert log == [0, 1, 2, 3, 0], log
''')
bug("C08-fp-integers", "C08",
    [(FP, "        min_val = np.min(fitness_scores)", "        if all(isinstance(ind.get_augmented_fitness(), int) for ind in source_inds):\n            fitness_scores = np.array(fitness_scores, dtype=np.int16).astype(float)\n        min_val = np.min(fitness_scores)")],
    "integer fitness above 32767", "overflow: the best is drawn as the worst", '''
np.random.seed(1)
src = [vec(IntVector, [k], (0, 9), fit=v) for k, v in enumerate([0, 40000])]
out = FitnessProportionateSelection(higher_is_better=True).select(src * 20, [])
assert all(i.vector == [1] for i in out)
''')
bug("C27-individuals-given", "C27",
    [(SUB, "random.choices(", "self._choose("),
     (SUB, "    def contains_individual", "    def _choose(self, creators, weights):\n        if len(creators) > 1 and self.population_size == 1:\n            return [creators[0]]        # only one is needed\n        return random.choices(creators, weights=weights)\n\n    def contains_individual")],
    "one individual, several creators", "it always comes from the first one", '''
cs = [GAIntVectorCreator(length=k + 1, bounds=(0, 1)) for k in range(3)]
s = Subpopulation(Sum(), creators=cs, pcr=[0, 0, 1], operators_sequence=[], population_size=1)
s.create_subpopulation_individuals()
assert len(s.individuals[0].vector) == 3
''')
