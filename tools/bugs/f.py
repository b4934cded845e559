import importlib.util, os
_s = importlib.util.spec_from_file_location("bugs_e", os.path.join(os.path.dirname(os.path.abspath(__file__)), "e.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE + '''
from eckity.individual import Individual
from eckity.genetic_operators.selections.fp_selection import FitnessProportionateSelection
from eckity.statistics.best_average_worst_statistics import BestAverageWorstStatistics
def ints(n, cells=1, hi=True, hib=10**6, fit=True):
    return [IntVector(SimpleFitness(float(k) if fit else None, higher_is_better=hi), cells, bounds=(0, hib), vector=[k] * cells) for k in range(n)]
'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=PRE + demo))


SE = "eckity/algorithms/simple_evolution.py"
AL = "eckity/algorithms/algorithm.py"
SUB = "eckity/subpopulation.py"
EV = "eckity/evaluators/simple_population_evaluator.py"
TS = "eckity/genetic_operators/selections/tournament_selection.py"
FP = "eckity/genetic_operators/selections/fp_selection.py"
TI = "eckity/genetic_encodings/gp/tree/tree_individual.py"
GO = "eckity/genetic_operators/genetic_operator.py"
PUB = "eckity/before_after_publisher.py"

bug("C01-execute-last", "C01",
    [(SE, "        return self.best_of_run_.execute(**kwargs)", "        best = self.best_of_run_ if self.best_of_gen is None else self.best_of_gen\n        return best.execute(**kwargs)")],
    "a run whose last generation lost the best individual (no elitism)", "executing the algorithm gives the best of the last generation, not of the run", '''
for seed in range(10):
    s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=4, bounds=(0, 9)), population_size=4, higher_is_better=True,
                      operators_sequence=[VectorNPointMutation(n=4)], selection_methods=[(TournamentSelection(1, higher_is_better=True), 1)])
    a = SimpleEvolution(s, max_generation=4, random_seed=seed)
    a.evolve()
    assert a.execute() == a.best_of_run_.vector
''')
bug("C02-half-up", "C02",
    [(SUB, "        self.n_elite = round(elitism_rate * self.population_size)", "        self.n_elite = int(elitism_rate * self.population_size + 0.5)")],
    "an elitism rate whose product with the population size is an even number and a half", "one elite more than round(rate * size) is carried over", '''
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1), population_size=10, elitism_rate=0.25, operators_sequence=[])
assert s.n_elite == round(0.25 * 10)
''')
bug("C03-id-reset", "C03",
    [(AL, "        self.population.create_population_individuals()", "        # the individuals of a run are numbered from 1\n        Individual.id = 1\n        self.population.create_population_individuals()")],
    "a second run in the process, or a run that starts from supplied individuals", "individuals share an id", '''
inds = ints(4, fit=False)
ids = {i.id for i in inds}
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=4, individuals=list(inds),
                  operators_sequence=[], selection_methods=[(TournamentSelection(1), 1)])
a = SimpleEvolution(s, max_generation=1, random_seed=1)
a.evolve()
assert not ids & {i.id for i in s.individuals}
''')
bug("C04-large-batches", "C04",
    [(EV, "            eval_futures = [\n                self.executor.submit(sp_eval.evaluate_individual, ind)\n                for ind in sub_population.individuals\n            ]\n            eval_results = [future.result() for future in eval_futures]",
      "            # do not flood the executor: wait for each batch\n            batch, eval_results = 100, []\n            for start in range(0, len(individuals), batch):\n                eval_futures = [\n                    self.executor.submit(sp_eval.evaluate_individual, ind)\n                    for ind in individuals[start: min(start + batch, len(individuals) - 1)]\n                ] if start else [\n                    self.executor.submit(sp_eval.evaluate_individual, ind)\n                    for ind in individuals[:batch]\n                ]\n                eval_results += [future.result() for future in eval_futures]")],
    "the submit method with a population of more than one hundred individuals", "the last individual keeps its old (or no) score", '''
from concurrent.futures import ThreadPoolExecutor
for n in (99, 100, 101, 230):
    inds = ints(n, fit=False)
    s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1), population_size=n, individuals=inds, operators_sequence=[])
    e = SimplePopulationEvaluator("submit")
    ex = ThreadPoolExecutor(2)
    e.set_executor(ex)
    e.act(Population([s]))
    ex.shutdown()
    assert [i.get_pure_fitness() for i in inds] == list(range(n))
''')
bug("C05-tie-by-name", "C05",
    [("eckity/genetic_operators/selections/elitism_selection.py", "            key=lambda ind: ind.get_augmented_fitness(),", "            # ties are broken by the individual's name\n            key=lambda ind: (ind.get_augmented_fitness(), str(ind.id)),")],
    "elites chosen among equal fitness values while the ids pass a power of ten", "which of the equal individuals are kept depends on earlier runs", '''
class Const(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return 1.0
def run():
    s = Subpopulation(Const(), creators=GAIntVectorCreator(length=1, bounds=(0, 999)), population_size=8, elitism_rate=0.5,
                      operators_sequence=[], selection_methods=[(TournamentSelection(1), 1)])
    a = SimpleEvolution(s, max_generation=1, random_seed=5)
    a.evolve()
    return [i.vector for i in s.individuals]
Individual.id = 20000
first = run()
Individual.id = 99996
assert run() == first
''')
bug("C07-best-of-gen", "C07",
    [(SE, "    def execute(self, **kwargs):", "    def should_terminate(self, population, best_of_run_, generation_num):\n        # checkers look at the current generation\n        best = self.best_of_gen if self.best_of_gen is not None else best_of_run_\n        return super().should_terminate(population, best, generation_num)\n\n    def execute(self, **kwargs):")],
    "a generation that is worse than an earlier one (no elitism)", "the checkers are not given the best-of-run individual", '''
from eckity.termination_checkers.termination_checker import TerminationChecker
seen = []
class Spy(TerminationChecker):
    def should_terminate(self, population, best, gen):
        seen.append(best.vector[0])
        return False
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 999)), population_size=2, higher_is_better=True,
                  operators_sequence=[VectorNPointMutation(n=1)], selection_methods=[(TournamentSelection(1, higher_is_better=True), 1)])
a = SimpleEvolution(s, max_generation=12, random_seed=3, termination_checker=Spy())
a.evolve()
assert seen == sorted(seen), seen
''')
bug("C08-large-pop", "C08",
    [(TS, "            sel_func(source_inds, k=self.tournament_size)\n", "            sel_func(source_inds[:256], k=self.tournament_size)\n")],
    "a population of more than 256 individuals", "later individuals are never selected", '''
random.seed(1)
out = TournamentSelection(2, higher_is_better=True).select(ints(400), [])
assert max(i.vector[0] for i in out) > 300
''')
bug("C08-fp-overfill", "C08",
    [(FP, "        n_selected = len(source_inds) - len(dest_inds)\n", "        n_selected = len(source_inds)\n")],
    "fitness proportionate selection into a destination that is not empty", "the destination gets larger than the source", '''
out = FitnessProportionateSelection(higher_is_better=True).select(ints(6), ints(2))
assert len(out) == 6
''')
bug("C08-fp-pure", "C08",
    [(FP, "ind.get_augmented_fitness() for ind in source_inds", "ind.get_pure_fitness() for ind in source_inds")],
    "trees with a bloat weight", "probabilities are proportional to the pure, not the augmented, fitness", '''
def tree(n, f):
    t = Tree(function_set=[f_add], terminal_set=["x"], fitness=GPFitness(f, higher_is_better=True, bloat_weight=1.0))
    t.tree = [FunctionNode(f_add)] * (n // 2) + [TerminalNode("x")] * (n // 2 + 1)
    return t
np.random.seed(1)
src = [tree(1, 11.0), tree(9, 9.0), tree(1, 11.0), tree(9, 9.0)] * 10
out = FitnessProportionateSelection(higher_is_better=True).select(src, [])
assert all(len(i.tree) == 1 for i in out)
''')
bug("C13-bool-erc", "C13",
    [(TI, "            node_type is None or node_type is self.erc_type\n", "            node_type is None or issubclass(node_type, self.erc_type)\n")],
    "typed trees with boolean parameters and an integer constant range", "an integer constant takes the place of a boolean", '''
random.seed(2)
c = FullCreator(init_depth=(2, 3), function_set=[f for f in (tf.add2ints, ) ] if hasattr(tf, "add2ints") else FS, terminal_set=TSET, root_type=int, erc_range=(0, 9)) if False else None
def fi(a: int, b: bool) -> int:
    return a
def fb(a: bool) -> bool:
    return a
c = FullCreator(init_depth=(2, 3), function_set=[fi, fb], terminal_set={"i": int, "b": bool}, root_type=int, erc_range=(0, 9))
for t in c.create_individuals(100, True):
    for n in t.tree:
        if n.node_type is bool and isinstance(n, TerminalNode):
            assert n.value == "b", n
''')
bug("C14-remainder-own-depth", "C14",
    [("eckity/creators/gp_creators/half.py", "        if n_missing > 0:\n            missing_inds", "        if n_missing > 0:\n            self.full_creator.init_depth = self.own_depth\n            missing_inds"),
     ("eckity/creators/gp_creators/half.py", "        self.grow_creator = grow_creator\n        self.full_creator = full_creator\n", "        self.grow_creator = grow_creator\n        self.full_creator = full_creator\n        self.own_depth = full_creator.init_depth\n")],
    "a user's full creator with depths of its own and a population size with a remainder", "the remainder has the depth of the user's full creator", '''
random.seed(1)
full = FullCreator(init_depth=(1, 1), function_set=[f_add], terminal_set=["x", "y"])
half = HalfCreator(init_depth=(2, 3), function_set=[f_add], terminal_set=["x", "y"], full_creator=full)
assert all(t.depth() >= 2 for t in half.create_individuals(7, True))
''')
bug("C16-unused-missing", "C16",
    [(TI, "            for item in self.terminal_set\n            if isinstance(item, str) and item not in kw\n        ]", "            for item in {n.value for n in self.tree if not isinstance(n, FunctionNode) and isinstance(n.value, str)}\n            if item in self.terminal_set and item not in kw\n        ]")],
    "a missing variable that does not occur in the tree", "the call is not refused", '''
t = Tree(function_set=[f_add], terminal_set=["x", "y"]); t.tree = [FunctionNode(f_add), TerminalNode("x"), TerminalNode("x")]
try:
    t.execute(x=1)
except ValueError:
    sys.exit(0)
sys.exit(1)
''')
bug("C17-kept-when-same", "C17",
    [(GO, "            for individual in individuals:\n                individual.set_fitness_not_evaluated()\n            op_res = self.apply(individuals)\n",
      "            before = [list(getattr(i, 'vector', [])) for i in individuals]\n            op_res = self.apply(individuals)\n            for individual, old in zip(individuals, before):\n                # an unchanged vector has the same fitness\n                if not old or individual.vector != old:\n                    individual.set_fitness_not_evaluated()\n")],
    "an operator application that leaves a vector as it was", "the fitness stays evaluated", '''
v = vec(IntVector, [1, 2], (0, 9), 3.0)
IdentityTransformation().apply_operator([v])
assert not v.fitness.is_fitness_evaluated()
''')
FS = "eckity/multi_objective_evolution/nsga2_front_sorting.py"
bug("C18-all-ends", "C18",
    [(FS, "\t\t\t\tif d:\n", "\t\t\t\tif d and front[i].get_pure_fitness()[objective_index] in (front[0].get_pure_fitness()[objective_index], front[-1].get_pure_fitness()[objective_index]):\n\t\t\t\t\tfront[i].fitness.crowding = float('inf')\n\t\t\t\telif d:\n")],
    "three objectives, several individuals of a front with the smallest (or largest) value of one of them", "more individuals than the two ends get an infinite distance", '''
from eckity.fitness.simple_fitness import SimpleFitness as _S
def ind(*f):
    i = FloatVector(NSGA2Fitness(higher_is_better=True), 1, bounds=(0, 9), vector=[0.0])
    i.fitness.set_fitness(list(f)); return i
front = [ind(0, 9, 0), ind(0, 6, 5), ind(0, 4, 7), ind(0, 2, 8), ind(9, 0, 1), ind(5, 0, 3), ind(4, 1, 6), ind(0, 0, 9)]
s = NSGA2FrontSorting(); s._calc_fronts_crowding(front)
assert sum(i.fitness.crowding == float("inf") for i in front) <= 6
''')
bug("C19-close-objectives", "C19",
    [("eckity/multi_objective_evolution/nsga2_fitness.py", "import", "import", )],
    "x", "x", "pass")
BUGS.pop()
bug("C20-skip-unregistered", "C20",
    [(PUB, "            callback(self, struct)", "            if subscriber in self._get_subscribers(event_name):\n                callback(self, struct)")],
    "a callback that unregisters a later one", "a callback that was subscribed when the event was published is not called", '''
p = BeforeAfterPublisher(event_names=["e"])
got = []
h = {}
p.register("e", lambda s, d: p.unregister("e", h["b"]) if "b" in h else None)
h["b"] = p.register("e", lambda s, d: got.append(1))
p.publish("e")
assert got == [1]
''')
bug("C21-final-generation-lost", "C21",
    [(AL, '        del state["executor"]\n        return state', '        del state["executor"]\n        # set again by the next run\n        state["final_generation_"] = None\n        return state')],
    "a copy taken after the run", "the recorded final generation is lost", '''
s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=2, operators_sequence=[], selection_methods=[(TournamentSelection(1), 1)])
a = SimpleEvolution(s, max_generation=3, random_seed=1)
a.evolve()
b = pickle.loads(pickle.dumps(a))
assert b.final_generation_ == 3
b.executor.shutdown()
''')
bug("C23-worst-of-first", "C23",
    [("eckity/statistics/best_average_worst_statistics.py", "                    sub_pop.get_worst_individual().get_pure_fitness(),", "                    data_dict[\"population\"].get_worst_individuals()[0].get_pure_fitness(),")],
    "a population of several sub-populations", "the worst of the first sub-population is reported for every one", '''
import logging, io
logging.disable(logging.NOTSET)
buf = io.StringIO(); lg = logging.getLogger("eckity"); h = logging.StreamHandler(buf); logging.getLogger().addHandler(h); logging.getLogger().setLevel(logging.INFO)
mk = lambda fs: Subpopulation(Sum(), creators=GAIntVectorCreator(length=1), population_size=2, operators_sequence=[], higher_is_better=True,
    individuals=[IntVector(SimpleFitness(f, higher_is_better=True), 1, bounds=(0, 9), vector=[1]) for f in fs])
BestAverageWorstStatistics().write_statistics(None, {"generation_num": 1, "population": Population([mk([1.0, 2.0]), mk([5.0, 7.0])])})
out = buf.getvalue()
assert "worst fitness 5.0" in out, out
''')
bug("C24-skipped-recorded", "C24",
    [(GO, "        return individuals\n\n    @abstractmethod", "        for ind in individuals:\n            if ind.applied_operators:\n                ind.applied_operators.append(type(self).__name__)\n        return individuals\n\n    @abstractmethod")],
    "an operator skipped by its probability after another one was applied", "a skipped operator is recorded", '''
v = vec(IntVector, [1, 2], (0, 9), 3.0)
IdentityTransformation().apply_operator([v])
VectorNPointMutation(probability=-1).apply_operator([v])
assert v.applied_operators == ["IdentityTransformation"]
''')
UF = "eckity/base/untyped_functions.py"
bug("C25-int-arrays", "C25",
    [(UF, "    with np.errstate(divide=\"ignore\", invalid=\"ignore\"):\n        return np.where(np.abs(y) > 0.001, np.divide(x, y), 0.0)\n",
      "    x, y = np.broadcast_arrays(x, y)\n    return np.divide(x, y, out=np.zeros(x.shape, np.result_type(x, y, np.float32)), where=np.abs(y) > 0.001)\n")],
    "arrays of small integer types or of single precision mixed with others", "the quotient is computed in single precision (or refused)", '''
x = np.array([1, 2, 100], dtype=np.int8); y = np.array([3, 7, 9], dtype=np.int8)
assert np.allclose(f_div(x.astype(float), y.astype(float)), [1/3, 2/7, 100/9], rtol=1e-12)
a = f_div(np.array([1, 2]), np.array([3, 7]))
assert np.allclose(a, [1/3, 2/7], rtol=1e-12)
assert isinstance(f_div(1.0, 0.0) + 0.0, float) or f_div(1.0, 0.0).shape == ()
assert np.allclose(f_div(x, y), np.array([1, 2, 100]) / np.array([3, 7, 9]), rtol=2e-3)
assert f_div(x, y).dtype == (x / y).dtype
''')
bug("C28-last-leaf", "C28",
    [(TI, "        return self._get_subtree_by_index(random.choice(relevant_indices))", "        return self._get_subtree_by_index(\n            relevant_indices[int(random.random() * (len(relevant_indices) - 0.5))]\n        )")],
    "many variations: one subtree is chosen half as often as the others", "subtrees are not equally likely", '''
random.seed(1)
t = Tree(function_set=[f_add], terminal_set=["x", "y"]); t.tree = [FunctionNode(f_add), TerminalNode("x"), TerminalNode("y")]
n = sum(t.random_subtree()[0] is t.tree[2] for _ in range(6000))
assert n > 1700, n
''')
BUGS[-1]["id"], BUGS[-1]["property"] = "C32-last-subtree", "C32"
bug("C29-replace-at-end", "C29",
    [("eckity/genetic_encodings/ga/vector_individual.py", "        index = randint(\n            0, self.size() - len(inserted_part)\n        )", "        index = randint(\n            0, max(self.size() - len(inserted_part) - 1, 0)\n        )")],
    "many random replacements", "a part is never placed at the end of the vector", '''
random.seed(1)
ends = 0
for _ in range(300):
    v = vec(IntVector, [0, 0, 0, 0], (0, 9))
    v.replace_vector_part_random([5, 5])
    ends += v.vector[3] == 5
assert ends
''')
bug("C31-third-parameter", "C31",
    [(TI, "                    return func_types[i] == new_node.node_type", "                    return func_types[min(i, 1)] == new_node.node_type")],
    "a typed function whose third parameter has another type than its second", "a node of the wrong type is accepted (and the right one refused)", '''
def g(a: float, b: float, c: int) -> float:
    return a
t = Tree(function_set=[g], terminal_set={"x": float, "i": int}, root_type=float)
for n in (FunctionNode(g), TerminalNode("x", node_type=float), TerminalNode("x", node_type=float)):
    t.add_tree(n)
try:
    t.add_tree(TerminalNode("x", node_type=float))
except ValueError:
    t.add_tree(TerminalNode("i", node_type=int))
    sys.exit(0)
sys.exit(1)
''')
