import importlib.util, os
_s = importlib.util.spec_from_file_location("bugs_c", os.path.join(os.path.dirname(os.path.abspath(__file__)), "c.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE + '''
from eckity.genetic_operators.selections.elitism_selection import ElitismSelection
from eckity.multi_objective_evolution.nsga2_front_sorting import NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.termination_checkers.threshold_from_target_termination_checker import ThresholdFromTargetTerminationChecker
from eckity.genetic_operators.failable_operator import FailableOperator
from eckity.genetic_operators.genetic_operator import GeneticOperator
'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=PRE + demo))


SB = "eckity/breeders/simple_breeder.py"
TWO = '''
def sub(n, e, hib, base, ops):
    inds = []
    for k in range(n):
        i = IntVector(SimpleFitness(float(k), higher_is_better=hib), 1, bounds=(0, 1000), vector=[base + k])
        inds.append(i)
    return Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 1000)), population_size=n, individuals=inds, higher_is_better=hib,
                         elitism_rate=e, operators_sequence=ops, selection_methods=[(TournamentSelection(1, higher_is_better=hib), 1)])
class Add(GeneticOperator):
    def __init__(self, d, arity=1):
        super().__init__(probability=1, arity=arity)
        self.d = d
    def apply(self, inds):
        for i in inds:
            i.set_vector([i.vector[0] + self.d])
        return inds
'''
bug("C33-direction-of-first", "C33",
    [(SB, "higher_is_better=subpopulation.higher_is_better,", "higher_is_better=population.sub_populations[0].higher_is_better,")],
    "two sub-populations of different fitness directions, the second with elitism", "the elites of the second are its worst", TWO + '''
p = Population([sub(4, 0, True, 0, []), sub(4, .5, False, 100, [])])
SimpleBreeder().breed(p)
assert [i.vector[0] for i in p.sub_populations[1].individuals[:2]] == [100, 101]
''')
bug("C33-elites-collected", "C33",
    [(SB, "        for subpopulation in population.sub_populations:\n            # Assert", "        elites = []\n        for subpopulation in population.sub_populations:\n            # Assert"),
     (SB, "            elites = []\n\n            num_elites", "            num_elites")],
    "several sub-populations with elitism", "the elites of the first sub-population enter the later ones", TWO + '''
p = Population([sub(4, .5, True, 0, []), sub(4, .25, True, 100, [])])
SimpleBreeder().breed(p)
assert len(p.sub_populations[1].individuals) == 4 and all(i.vector[0] >= 100 for i in p.sub_populations[1].individuals)
''')
bug("C33-gen-of-first", "C33",
    [("eckity/algorithms/algorithm.py", "        for subpopulation in self.population.sub_populations:\n            for ind in subpopulation.individuals:\n                ind.gen = gen",
      "        newest = self.population.sub_populations[0].individuals\n        if newest and newest[0].gen == gen:\n            return\n        for subpopulation in self.population.sub_populations:\n            for ind in subpopulation.individuals:\n                if ind.gen == newest[-1].gen:\n                    ind.gen = gen")],
    "a run over several sub-populations", "individuals after the first sub-population was updated keep an old generation number", TWO + '''
class Ev(SimplePopulationEvaluator):
    def _evaluate(self, population):
        for sp in population.sub_populations:
            for i in sp.individuals:
                i.fitness.set_fitness(float(i.vector[0]))
        return population.sub_populations[0].individuals[0]
p = Population([sub(4, 0, True, 0, []), sub(4, 0, True, 100, [])])
alg = SimpleEvolution(p, population_evaluator=Ev(), max_generation=3, executor="thread", random_seed=1)
alg.evolve()
assert all(i.gen == 3 for sp in p.sub_populations for i in sp.individuals)
''')
bug("C33-arity-of-first", "C33",
    [(SB, "                if subpopulation.population_size % oper.arity != 0:", "                if population.sub_populations[0].population_size % oper.arity != 0:")],
    "a later sub-population whose size is not a multiple of an operator's arity", "the step is not refused", TWO + '''
p = Population([sub(4, 0, True, 0, []), sub(3, 0, True, 100, [Add(1, 2)])])
try:
    SimpleBreeder().breed(p)
except ValueError:
    pass
else:
    raise SystemExit("accepted")
''')
bug("C33-operators-kept", "C33",
    [(SB, "            operators = selection_methods + operators_sequence\n", "            operators = selection_methods + operators_sequence\n            if len(operators_sequence) > len(getattr(self, \"_sequence\", [])):\n                self._sequence = operators_sequence\n"),
     (SB, "                subpopulation.get_operators_sequence(),\n                self.selected_individuals,", "                getattr(self, \"_sequence\", operators_sequence),\n                self.selected_individuals,")],
    "a sub-population with fewer operators than an earlier one", "the offspring go through the operators of the other sub-population", TWO + '''
p = Population([sub(4, 0, True, 0, [Add(10), Add(10)]), sub(4, 0, True, 100, [Add(500)])])
SimpleBreeder().breed(p)
assert all(i.vector[0] >= 600 for i in p.sub_populations[1].individuals), [i.vector for i in p.sub_populations[1].individuals]
''')

FS = "eckity/multi_objective_evolution/nsga2_front_sorting.py"
bug("C34-dominated-before", "C34",
    [(FS, "\t\tself.domination_dict = defaultdict(DominationCounter)\n", "\t\tknown = getattr(self, 'domination_dict', {})\n\t\tself.domination_dict = defaultdict(DominationCounter)\n\t\tfor ind in source_inds:\n\t\t\tif ind in known and known[ind].domination_counter > 0:\n\t\t\t\tself.domination_dict[ind].domination_counter = 0\n\t\t\t\tself.domination_dict[ind].dominates = list(known[ind].dominates)\n")],
    "a sorter used a second time for individuals it has sorted before that were cut while still dominated", "old dominations are counted down again, so fronts are wrong", '''
def ind(f):
    i = BitStringVector(NSGA2Fitness(higher_is_better=True), 1, vector=[0])
    i.fitness.set_fitness(list(f))
    return i
random.seed(3)
def pop(inds):
    return Population([Subpopulation(Sum(), creators=GABitStringVectorCreator(length=1), population_size=len(inds), individuals=inds, operators_sequence=[])])
bad = 0
for t in range(60):
    s = NSGA2FrontSorting()
    inds = [ind((random.randint(0, 5), random.randint(0, 5))) for _ in range(10)]
    def ranks(sorter, l):
        l = list(l)
        random.Random(t).shuffle(l)
        sorter.select_for_population(pop(l), len(l))
        return [i.fitness.front_rank for i in inds]
    p = pop(list(inds))
    s.select_for_population(p, 2)
    for i in inds:
        i.fitness._is_evaluated = False
        i.fitness.set_fitness([random.randint(0, 5), random.randint(0, 5)])
    try:
        a = ranks(s, inds)
    except Exception:
        a = None
    bad += a != ranks(NSGA2FrontSorting(), inds)
assert bad == 0, bad
''')
bug("C34-smoothing-stays", "C34",
    [("eckity/genetic_operators/selections/fp_selection.py", "            smoothing = 1 if min_val == 0 else 0\n            fitness_scores = 1 / (fitness_scores + smoothing)",
      "            if min_val == 0:\n                self.smoothing = 1\n            fitness_scores = 1 / (fitness_scores + getattr(self, \"smoothing\", 0))")],
    "fitness proportionate minimisation, first with a perfect individual, then (another population or generation) without", "the reciprocals stay smoothed", '''
def inds(f):
    return [BitStringVector(SimpleFitness(x), 1, vector=[0]) for x in f]
sel = FitnessProportionateSelection()
sel.select(inds([0.0, 1.0, 2.0]), [])
np.random.seed(1)
hits = n = 0
src = inds([0.01] + [1.0] * 9)
for _ in range(200):
    out = sel.select(src, [])
    hits += sum(o.cloned_from == src[0].id for o in out); n += len(out)
assert hits / n > 0.85, hits / n
''')
bug("C34-tournament-shrinks", "C34",
    [("eckity/genetic_operators/selections/tournament_selection.py", "        sel_func = random.choices if self.replace else random.sample\n",
      "        sel_func = random.choices if self.replace else random.sample\n        # a tournament larger than the population has no effect\n        self.tournament_size = min(self.tournament_size, len(source_inds))\n")],
    "one tournament selection object used on a small population and then on a larger one", "later tournaments are smaller than configured", '''
def pop(n):
    return [BitStringVector(SimpleFitness(float(k), higher_is_better=True), 1, vector=[0]) for k in range(n)]
def mean(sel):
    random.seed(1)
    src = pop(40)
    pos = {i.id: k for k, i in enumerate(src)}
    return np.mean([pos[o.cloned_from] for _ in range(20) for o in sel.select(src, [])])
a, b = TournamentSelection(8, higher_is_better=True), TournamentSelection(8, higher_is_better=True)
a.select(pop(2), [])
assert mean(a) == mean(b), (mean(a), mean(b))
''')
bug("C34-attempts-used-up", "C34",
    [("eckity/genetic_operators/failable_operator.py", "        return self.on_fail(payload)", "        # no need to insist next time\n        self.attempts = max(1, self.attempts - 1)\n        return self.on_fail(payload)")],
    "an operator with several attempts that has failed before", "later uses have fewer attempts", '''
class Op(FailableOperator):
    def __init__(self):
        super().__init__(probability=1, arity=1, attempts=3)
        self.n, self.win = 0, False
    def attempt_operator(self, payload, attempt_num):
        self.n += 1
        return False, payload
o = Op()
v = [BitStringVector(SimpleFitness(), 1, vector=[0])]
o.apply_operator(v); o.apply_operator(v)
assert o.n == 6, o.n
''')
bug("C34-once-reached", "C34",
    [("eckity/termination_checkers/threshold_from_target_termination_checker.py", "        return abs(best_individual.get_pure_fitness() - self.optimal) <= self.threshold",
      "        self._reached = getattr(self, \"_reached\", False) or (\n            abs(best_individual.get_pure_fitness() - self.optimal) <= self.threshold\n        )\n        return self._reached")],
    "one checker used in two runs, the first of which reached the target", "the second run stops at once", '''
def best(f):
    return BitStringVector(SimpleFitness(f), 1, vector=[0])
c = ThresholdFromTargetTerminationChecker(optimal=0, threshold=0.5)
assert c.should_terminate(None, best(0.25), 3)
assert not c.should_terminate(None, best(9.0), 0)
''')
bug("C34-half-narrower", "C34",
    [("eckity/creators/gp_creators/half.py", "        n_missing = n_individuals - len(individuals)\n        if n_missing > 0:\n",
      "        n_missing = n_individuals - len(individuals)\n        if n_missing > 0:\n            if n_missing == n_individuals % 2:\n                self.init_depth = (min_depth, depth) if min_depth == max_depth else (min_depth + 1, max_depth)\n")],
    "a half-and-half creator used twice with an odd number of individuals", "the second population lacks the smallest depth", '''
def depths(c, n):
    random.seed(5)
    return [i.depth() for i in c.create_individuals(n, True)]
mk = lambda: HalfCreator(init_depth=(1, 3), function_set=[f_add], terminal_set=["x"])
a, b = mk(), mk()
a.create_individuals(7, True)
assert depths(a, 12) == depths(b, 12)
''')
bug("C34-gauss-gives-up", "C34",
    [("eckity/genetic_operators/mutations/vector_random_mutation.py", "        mut = FloatVectorUniformNPointMutation(\n            self.n, self.probability, self.arity, self.events\n        )\n        return mut.apply_operator(payload)\n\n\nclass IntVectorOnePointMutation",
      "        mut = FloatVectorUniformNPointMutation(\n            self.n, self.probability, self.arity, self.events\n        )\n        self.mut_val_getter = mut.mut_val_getter\n        return mut.apply_operator(payload)\n\n\nclass IntVectorOnePointMutation")],
    "a gaussian n-point mutation that has once exhausted its attempts", "from then on it mutates uniformly", '''
op = FloatVectorGaussNPointMutation(n=1, probability=1, sigma=0.001)
bad = [FloatVector(SimpleFitness(), 2, bounds=(0.0, 1.0), vector=[50.0, 50.0])]
op.apply_operator(bad)
v = FloatVector(SimpleFitness(), 1, bounds=(-100.0, 100.0), vector=[0.0])
for _ in range(20):
    op.apply_operator([v])
assert abs(v.vector[0]) < 1, v.vector
''')
bug("C34-best-remembered", "C34",
    [("eckity/evaluators/simple_population_evaluator.py", "        best_ind: Individual = individuals[0]\n        best_fitness: Fitness = best_ind.fitness\n",
      "        best_ind: Individual = individuals[0]\n        last = getattr(self, \"_last_best\", None)\n        if last in individuals:\n            best_ind = last\n        best_fitness: Fitness = best_ind.fitness\n"),
     ("eckity/evaluators/simple_population_evaluator.py", "        return best_ind\n", "        self._last_best = best_ind\n        return best_ind\n")],
    "a population evaluated a second time with the same individuals and a tie for the best", "the tie is decided by the earlier evaluation", '''
from concurrent.futures import ThreadPoolExecutor
class Ev(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return float(ind.vector[0])
inds = [BitStringVector(SimpleFitness(higher_is_better=True), 1, vector=[b]) for b in (0, 1, 1)]
sub = Subpopulation(Ev(), creators=GABitStringVectorCreator(length=1), population_size=3, individuals=inds, operators_sequence=[], higher_is_better=True)
ex = ThreadPoolExecutor(1)
def best(pe):
    pe.set_executor(ex)
    return inds.index(pe.act(Population([sub])))
pe = SimplePopulationEvaluator()
inds[1].set_vector([0])
best(pe)
inds[1].set_vector([1])
r = best(pe), best(SimplePopulationEvaluator())
ex.shutdown()
assert r[0] == r[1], r
''')
bug("C34-stat-format", "C34",
    [("eckity/statistics/best_average_worst_statistics.py", "            logger.info(f\"subpopulation #{index}\")\n", "            logger.info(f\"subpopulation #{index}\")\n            self._seen = getattr(self, \"_seen\", 0) + 1\n            if self._seen == 4:\n                self._first = sub_pop.get_average_fitness()\n"),
     ("eckity/statistics/best_average_worst_statistics.py", "                    sub_pop.get_average_fitness(),\n                )\n            )", "                    self._first if self._seen > 4 and self._seen % 4 == 0 else sub_pop.get_average_fitness(),\n                )\n            )")],
    "statistics written at least eight times", "every fourth report repeats an old average", '''
import logging, io
logging.disable(logging.NOTSET)
from eckity.statistics.best_average_worst_statistics import BestAverageWorstStatistics
out = []
class H(logging.Handler):
    def emit(self, r): out.append(r.getMessage())
lg = logging.getLogger("eckity"); lg.setLevel(logging.INFO); lg.addHandler(H())
st = BestAverageWorstStatistics(format_string="avg {2}")
for g in range(9):
    inds = [BitStringVector(SimpleFitness(float(g)), 1, vector=[0])]
    sub = Subpopulation(Sum(), creators=GABitStringVectorCreator(length=1), population_size=1, individuals=inds, operators_sequence=[])
    st.write_statistics(None, dict(generation_num=g, population=Population([sub])))
assert [x for x in out if x.startswith("avg")] == [f"avg {float(g)}" for g in range(9)], out
''')
