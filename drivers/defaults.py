"""Options left out against options given their default explicitly (C35)."""
from treelib import *
import contextlib, hashlib, io
from types import SimpleNamespace
from eckity.algorithms.algorithm import Algorithm
from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.breeders.simple_breeder import SimpleBreeder
from eckity.creators.ga_creators.bit_string_vector_creator import GABitStringVectorCreator
from eckity.creators.ga_creators.float_vector_creator import GAFloatVectorCreator
from eckity.creators.ga_creators.int_vector_creator import GAIntVectorCreator
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.evaluators.simple_individual_evaluator import SimpleIndividualEvaluator
from eckity.evaluators.simple_population_evaluator import SimplePopulationEvaluator
from eckity.fitness import SimpleFitness, GPFitness
from eckity.genetic_encodings.ga import BitStringVector, IntVector, FloatVector
from eckity.genetic_encodings.gp import Tree, TerminalNode
from eckity.genetic_operators.crossovers.subtree_crossover import SubtreeCrossover
from eckity.genetic_operators.crossovers.vector_k_point_crossover import VectorKPointsCrossover
from eckity.genetic_operators.failable_operator import FailableOperator
from eckity.genetic_operators.genetic_operator import GeneticOperator
from eckity.genetic_operators.mutations import vector_random_mutation as VRM
from eckity.genetic_operators.mutations.erc_mutation import ERCMutation
from eckity.genetic_operators.mutations.identity_transformation import IdentityTransformation
from eckity.genetic_operators.mutations.subtree_mutation import SubtreeMutation
from eckity.genetic_operators.mutations.vector_n_point_mutation import VectorNPointMutation
from eckity.genetic_operators.selections.elitism_selection import ElitismSelection
from eckity.genetic_operators.selections.fp_selection import FitnessProportionateSelection
from eckity.genetic_operators.selections.tournament_selection import TournamentSelection
from eckity.multi_objective_evolution.crowding_termination_checker import CrowdingTerminationChecker
from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
from eckity.multi_objective_evolution.nsga2_evolution import NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.multi_objective_evolution.nsga2_front_sorting import NSGA2FrontSorting
from eckity.random import RNG
from eckity.sklearn_compatible.classification_evaluator import ClassificationEvaluator
from eckity.sklearn_compatible.regression_evaluator import RegressionEvaluator
from eckity.statistics.best_average_worst_statistics import BestAverageWorstStatistics
from eckity.subpopulation import Subpopulation
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
from eckity.termination_checkers.best_fitness_stagnation_termination_checker import BestFitnessStagnationTerminationChecker

GP = "gp"
CLS = dict(bit=BitStringVector, int=IntVector, float=FloatVector)


def node(n):
    return n.function.__name__ if isinstance(n, FunctionNode) else f"{type(n.value).__name__}:{n.value!r}:{n.node_type}"


def genome(i):
    return [f"{type(x).__name__}:{x!r}" for x in i.vector] if hasattr(i, "vector") else [node(n) for n in i.tree]


def face(i):
    f = i.fitness
    return (type(i).__name__, genome(i), repr(getattr(i, "bounds", None)), list(i.applied_operators), list(i.selected_by), type(f).__name__, repr(f.higher_is_better),
            repr(f.fitness) if f.is_fitness_evaluated() else None, repr(getattr(f, "bloat_weight", None)), hasattr(i, "parents"), len(getattr(i, "parents", [])))


# ------------------------------------------------------------------ what goes into the components
def vectors(kind, r, n, length=8):
    out = []
    for _ in range(n):
        b = (0, 1) if kind == "bit" else (-3, 3) if kind == "int" else r.choice([(-1.0, 1.0), (0.0, .5), (0.0, 8.0)])
        i = CLS[kind](SimpleFitness(r.randint(0, 9)), length, bounds=b)
        i.set_vector([i.get_random_number_in_bounds(j) for j in range(length)])
        out.append(i)
    return out


TYPED = dict(function_set=[TF.add2floats, pick, isless, TF.not2bools], terminal_set={"x": float, "b": bool, 1.5: float}, root_type=float)
PLAIN = dict(function_set=[f_add, f_sub, f_neg], terminal_set=["x", "y", 1])


def trees(r, n, typed=None, erc=(-1.0, 1.0)):
    d = TYPED if (r.random() < .5 if typed is None else typed) else PLAIN
    out = GrowCreator(init_depth=(2, 4), erc_range=erc, **d).create_individuals(n, False)
    for i in out:
        i.fitness.set_fitness(float(r.randint(0, 9)))
    return out


def act_op(make):
    def act(op, s):
        r = random.Random(s)
        out = []
        for _ in range(8):
            inds = make(r)
            res = op.apply_operator(inds)
            out.append([face(i) for i in inds])
        return out
    return act


def act_sel(sel, s):
    r = random.Random(s)
    src = vectors("int", r, 12, 3)
    hib = s % 2 == 0
    for i in src:
        i.fitness = SimpleFitness(r.choice([1.0, 2.0, 5.0, 7.5]), higher_is_better=hib)
    dest = []
    sel.select(src, dest)
    return [(d.vector, d.selected_by, d.cloned_from - src[0].id) for d in dest]


def act_creator(cr, s):
    inds = cr.create_individuals(8, s % 2 == 0)
    return [(face(i), [str(t) for t in (i.terminal_set if hasattr(i, "terminal_set") else [])]) for i in inds] + [hasattr(inds[0].clone(), "parents")]


def act_fitness(f, s):
    """one step in the life of a fitness"""
    r = random.Random(s)
    what = r.choice(["set", "read", "not", "compare", "copy"])
    ctx = trees(random.Random(4), 1, False)[0]
    nsga = isinstance(f, NSGA2Fitness)
    v = [float(r.randint(0, 9)), float(r.randint(0, 9))] if nsga else float(r.randint(0, 9))
    if what == "set":
        f.set_fitness(v)
    if what == "not":
        f.set_not_evaluated()
    other = type(f)([1.0, 5.0] if nsga else 4.0, higher_is_better=f.higher_is_better)
    out = [what, f.is_fitness_evaluated()]
    if f.is_fitness_evaluated():
        if not nsga:
            out.append(f.get_augmented_fitness(ctx))
        else:
            f.front_rank = other.front_rank = 1
            f.crowding = other.crowding = 0
        i, j = SimpleNamespace(size=ctx.size, fitness=f), SimpleNamespace(size=ctx.size, fitness=other)
        out += [f.get_pure_fitness(), f.better_than(i, other, j), f.equal_to(i, other, j), other.better_than(j, f, i)]
        import pickle
        g = pickle.loads(pickle.dumps(f))
        out.append(repr(g.get_pure_fitness()) if g.is_fitness_evaluated() else "not kept")
    return out


def act_individual(i, s):
    r = random.Random(s)
    what = r.choice(["set", "grow", "clone", "draw", "look", "undo"])
    out = [what]
    if what == "set":
        i.fitness.set_fitness(float(r.randint(0, 9)))
    if what == "undo":
        i.set_fitness_not_evaluated()
    if isinstance(i, Tree):
        if what == "grow" and not i.tree:
            i.add_tree(TerminalNode("x", next(iter(i.terminal_set.values()))))
        if what == "draw":
            t = i.random_terminal(next(iter(i.terminal_set.values())))
            out.append(node(t))
    else:
        if what == "grow":
            i.add_cell(i.get_random_number_in_bounds(0))
        if what == "draw":
            out += [i.get_random_number_in_bounds(0) for _ in range(5)]
    if what == "clone":
        c = i.clone()
        out += [face(c), hasattr(c, "parents")]
    return out + [face(i), i.size()]


def act_checker(c, s):
    """a run of generations: when does it want to stop"""
    r = random.Random(s)
    k = r.choice([5, 130])
    near = r.choice([True, False])
    out = []
    for g in range(k):
        f = SimpleFitness(r.choice([0.0, .05, -.05, .09, .11, 1.0]) if near else 1.0 if g > 3 else float(9 - g), higher_is_better=s % 2 == 0)
        i = SimpleNamespace(fitness=f, get_pure_fitness=f.get_pure_fitness, get_augmented_fitness=f.get_pure_fitness)
        out.append(bool(c.should_terminate(SimpleNamespace(get_best_individuals=lambda: [i], sub_populations=[SimpleNamespace(get_best_individual=lambda: i)]), i, g)))
    return out


def act_crowding(c, s):
    r = random.Random(s)
    out = []
    for g in range(10):
        inds = [SimpleNamespace(fitness=SimpleNamespace(crowding=r.choice([1.0, 1.05, 1.08, 1.11, 2.0]))) for _ in range(2)]
        out.append(bool(c.should_terminate(SimpleNamespace(sub_populations=[SimpleNamespace(individuals=inds)]), inds[0], g)))
    return out


def act_evaluator(e, s):
    r = random.Random(s)
    n = 12
    X = np.array([[r.uniform(-3, 3) for _ in range(2)] for _ in range(n)])
    e.set_context((X, np.array([r.choice([0, 1]) for _ in range(n)]))) if isinstance(e, ClassificationEvaluator) else e.set_context((X, np.array([r.uniform(-3, 3) for _ in range(n)])))
    t = GrowCreator(init_depth=(1, 3), function_set=[f_add, f_sub, f_neg], terminal_set=["x0", "x1"]).create_individuals(4, False)
    return [repr(float(e.evaluate_individual(i))) for i in t]


def act_popeval(pe, s):
    r = random.Random(s)
    where = []

    class E(SimpleIndividualEvaluator):
        def evaluate_individual(self, ind):
            return float(sum(ind.vector))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as ex:
        pe.set_executor(ex)
        inds = vectors("int", r, 5, 3)
        pop = SimpleNamespace(sub_populations=[SimpleNamespace(individuals=inds, evaluator=E(), get_best_individual=lambda: inds[0])])
        b = pe.act(pop)
    return [face(i) for i in inds] + [b is inds[0]]


class Score(SimpleIndividualEvaluator):
    def __init__(self, m):
        super().__init__()
        self.m, self.pids = m, set()

    def evaluate_individual(self, ind):
        self.pids.add(os.getpid())
        s = sum((j + 1) * x for j, x in enumerate(ind.vector))
        return [float(s % 5), float(-s % 7)] if self.m else float(s % 11)


def act_subpop(sp, s):
    """create, then select and look"""
    if sp.individuals is None:
        sp.create_subpopulation_individuals()
        for j, i in enumerate(sp.individuals):
            i.fitness.set_fitness(float(sum(i.vector) * 7 % 31))
    out = [len(sp.individuals), sp.n_elite, sp.population_size, sp.higher_is_better, [face(i) for i in sp.individuals]]
    for m, p in sp.get_selection_methods():
        dest = []
        m.select(sp.individuals, dest)
        out.append((p, [d.vector for d in dest]))
    return out + [sp.get_best_individual().vector, sp.get_worst_individual().vector, [type(o).__name__ for o in sp.get_operators_sequence()]]


class Mine(GeneticOperator):
    def apply(self, inds):
        for i in inds:
            i.add_cell(1)
        self.applied_individuals = inds
        return inds


class MineFails(FailableOperator):
    def attempt_operator(self, inds, attempt):
        for i in inds:
            i.add_cell(attempt)
        return random.random() < .3, inds

    def on_fail(self, inds):
        self.applied_individuals = inds
        return inds


class MyAlgorithm(Algorithm):
    """a user's own algorithm"""

    def generation_iteration(self, gen):
        self.breeder.breed(self.population)
        self.best_of_run_ = self.population_evaluator.act(self.population)

    def event_name_to_data(self, name):
        return {"population": self.population, "best_of_run_": self.best_of_run_, "generation_num": self.generation_num}

    def execute(self, **kw):
        return self.best_of_run_


class Looker(BestAverageWorstStatistics):
    def write_statistics(self, sender, data):
        pass


HIST = {}


def act_algo(a, s):
    """a whole run; in one of three, other runs of the episode go on in its callbacks (see ep)"""
    if a.final_generation_:
        return "done"
    hist = HIST.setdefault(id(a), [])
    ev = a.population.sub_populations[0].evaluator

    def see(sender, data):
        hist.append((data.get("generation_num"), [genome(i) for i in a.population.sub_populations[0].individuals]))
        inner = getattr(a, "inner", None)
        if inner and len(hist) in (1, 2):
            st = random.getstate(), np.random.get_state()
            inner.pop()()
            random.setstate(st[0])
            np.random.set_state(st[1])
            if not inner:
                a.inner = None
    a.register("after_generation", see)
    told = []
    for part in (a.breeder, a.population_evaluator):
        part.register("before_operator", lambda sender, data: told.append("before"))
        part.register("after_operator", lambda sender, data: told.append("after"))
    a.evolve()
    h = hashlib.sha1(repr(hist).encode()).hexdigest()
    return [h, len(hist), a.final_generation_, a.generation_num, genome(a.best_of_run_), ev.pids == {os.getpid()}, len(told)]


def last(a, b):
    return len(b)


# ------------------------------------------------------------------ the kinds: how they are made and what their options can be
def opt(default, *others):
    return [default] + list(others)


def val(v):
    """labels stand for the value itself (a new one each time when it is a call)"""
    return lambda: v


P = opt(("1.0", val(1.0)), (".4", val(.4)))
AR1 = opt(("1", val(1)), ("2", val(2)))
N1 = opt(("1", val(1)), ("2", val(2)), ("3", val(3)))
NONE = ("none", val(None))
ATT = opt(("5", val(5)), ("1", val(1)), ("2", val(2)))
MU = opt(("0.0", val(0.0)), ("2.0", val(2.0)))
SIGMA = opt(("1.0", val(1.0)), ("3.0", val(3.0)))
NO = opt(("no", val(False)), ("yes", val(True)))
YES = opt(("yes", val(True)), ("no", val(False)))
RND = opt(NONE, ("some", val(lambda ind, i=None: ind.get_random_number_in_bounds(0) if i is not None else [0])))


def some_success(old, new):
    return random.random() < .25


def some_cells(vec):
    return [random.randrange(2), 3]


def some_value(vec, i):
    return i


def gene(ind, i):
    return i % 2


KINDS = {}


def K(name, cls, act, opts, fixed=lambda r: {}, times=1, n=None):
    KINDS[name] = SimpleNamespace(name=name, cls=cls, act=act, opts=opts, fixed=fixed, times=times, n=n)


def vec2(kind):
    return act_op(lambda r: vectors(kind, r, 2))


def V(kind, k=1):
    """as many individuals as the operator asks for"""
    def act(op, s):
        return act_op(lambda r: vectors(kind, r, op.arity or 1))(op, s)
    return act


def T(erc=(-1.0, 1.0), typed=None):
    def act(op, s):
        return act_op(lambda r: trees(r, op.arity or 1, typed, erc))(op, s)
    return act


K("VectorKPointsCrossover", VectorKPointsCrossover, V("int"), dict(probability=P, arity=opt(("2", val(2))), k=N1))
K("VectorNPointMutation", VectorNPointMutation, V("float"),
  dict(probability=P, arity=AR1, n=N1, cell_selector=opt(NONE, ("some", val(some_cells))), mut_val_getter=opt(NONE, ("some", val(some_value))),
       success_checker=opt(NONE, ("some", val(some_success))), attempts=ATT), times=2)
for nm, o in [("FloatVectorUniformOnePointMutation", {}), ("FloatVectorUniformNPointMutation", dict(n=N1)),
              ("FloatVectorGaussOnePointMutation", dict(mu=MU, sigma=SIGMA, attempts=ATT)), ("FloatVectorGaussNPointMutation", dict(n=N1, mu=MU, sigma=SIGMA, attempts=ATT))]:
    K(nm, getattr(VRM, nm), V("float"), dict(probability=P, arity=AR1, **o), times=2 if "Gauss" in nm else 1)
K("IntVectorOnePointMutation", VRM.IntVectorOnePointMutation, V("int"), dict(probability=opt(("0.5", val(.5)), ("1.0", val(1.0))), arity=AR1,
                                                                             probability_for_each=opt(("0.1", val(.1)), ("0.7", val(.7)))), times=2)
K("IntVectorNPointMutation", VRM.IntVectorNPointMutation, V("int"), dict(probability=P, arity=AR1, n=N1))
K("BitStringVectorFlipMutation", VRM.BitStringVectorFlipMutation, V("bit"), dict(probability=P, arity=AR1))
K("BitStringVectorNFlipMutation", VRM.BitStringVectorNFlipMutation, V("bit"), dict(probability=P, arity=AR1, n=N1, probability_for_each=opt(("0.2", val(.2)), ("0.9", val(.9)))), times=2)
K("ERCMutation", ERCMutation, T(), dict(probability=P, arity=AR1, mu=opt(("0", val(0)), ("3", val(3))), sigma=opt(("1", val(1)), ("4", val(4)))))
K("SubtreeMutation", SubtreeMutation, T(), dict(probability=P, arity=opt(("1", val(1))), init_depth=opt(("(2, 4)", val((2, 4))), ("(1, 2)", val((1, 2)))), attempts=opt(("1", val(1)), ("3", val(3)))), times=2)
K("SubtreeCrossover", SubtreeCrossover, T(), dict(probability=P, arity=opt(("2", val(2)), ("3", val(3))), attempts=opt(("1", val(1)), ("3", val(3)))), times=2)
K("IdentityTransformation", IdentityTransformation, V("int"), dict(probability=P))
K("GeneticOperator", Mine, V("int"), dict(probability=P, arity=opt(("0", val(0)), ("1", val(1)), ("2", val(2)))))
K("FailableOperator", MineFails, V("int"), dict(probability=opt(("0.05", val(.05)), ("1.0", val(1.0))), arity=opt(("0", val(0)), ("1", val(1)), ("2", val(2))), attempts=opt(("1", val(1)), ("4", val(4)))), times=2)
K("TournamentSelection", TournamentSelection, act_sel, dict(higher_is_better=NO, replace=YES), lambda r: dict(tournament_size=r.choice([2, 3, 4])), times=2)
K("FitnessProportionateSelection", FitnessProportionateSelection, act_sel, dict(higher_is_better=NO))
K("ElitismSelection", ElitismSelection, act_sel, dict(higher_is_better=NO), lambda r: dict(num_elites=r.choice([1, 3])))

BND = opt(("0..1", val((0, 1))), ("3..5", val((3, 5))))
FBND = opt(("0..1", val((0.0, 1.0))), ("3..5", val((3.0, 5.0))))
CRE = dict(length=opt(("1", val(1)), ("3", val(3))), gene_creator=opt(NONE, ("some", val(gene))), update_parents=NO)
K("GABitStringVectorCreator", GABitStringVectorCreator, act_creator, dict(CRE, bounds=opt(("0..1", val((0, 1))), ("1..1", val((1, 1))))))
K("GAIntVectorCreator", GAIntVectorCreator, act_creator, dict(CRE, bounds=BND))
K("GAFloatVectorCreator", GAFloatVectorCreator, act_creator, dict(CRE, bounds=FBND))
K("GAVectorCreator", GAVectorCreator, act_creator, dict(CRE, bounds=opt(("0..1", val((0, 1)))), vector_type=opt(("bits", val(BitStringVector)), ("ints", val(IntVector))),
                                                        fitness_type=opt(("simple", val(SimpleFitness)), ("nsga", val(NSGA2Fitness)))))
TRC = dict(erc_range=opt(NONE, ("-1..1", val((-1.0, 1.0))), ("0..9", val((0, 9)))), bloat_weight=opt(("0.0", val(0.0)), ("0.5", val(.5))))


DEPTH = opt(("2..4", val((2, 4))), ("1..2", val((1, 2))), ("2..3", val((2, 3))))


def tree_fixed(r):
    return dict(PLAIN)


def typed_fixed(r):
    return r.choice([dict(TYPED), dict(TYPED, root_type=bool), dict(function_set=[TF.add2floats, TF.neg_float], terminal_set={"x": float, "y": float}, root_type=float)])


ROOT = opt(NONE)
GROW = dict(TRC, init_depth=DEPTH, p_prune=opt(("0.5", val(.5)), ("0.9", val(.9)), ("0.0", val(0))), update_parents=NO)
FULL = dict(TRC, init_depth=DEPTH, update_parents=NO)
HALF = dict(TRC, init_depth=DEPTH, grow_creator=opt(NONE), full_creator=opt(NONE))
for nm_, cls_, o_ in (("GrowCreator", GrowCreator, GROW), ("FullCreator", FullCreator, FULL), ("HalfCreator", HalfCreator, HALF)):
    K(nm_, cls_, act_creator, dict(o_, root_type=ROOT), tree_fixed)
    K(nm_ + "Typed", cls_, act_creator, o_, typed_fixed)
FIT = dict(higher_is_better=NO, cache=NO, is_relative_fitness=NO)
K("SimpleFitness", SimpleFitness, act_fitness, dict(FIT, fitness=opt(NONE, ("3", val(3.0)))), n=6)
K("GPFitness", GPFitness, act_fitness, dict(FIT, fitness=opt(NONE, ("3", val(3.0))), bloat_weight=opt(("0.1", val(.1)), ("0.5", val(.5)))), n=6)
K("NSGA2Fitness", NSGA2Fitness, act_fitness, dict(FIT, fitness=opt(NONE, ("3", lambda: [3.0, 2.0]))), n=6)
VEC = opt(NONE, ("given", lambda: [1, 1, 1, 1]))


def vec_fixed(r):
    return dict(fitness=None, length=4)


class Fixed:
    """values that each instance needs its own of"""

    def __init__(self, f):
        self.f = f


K("BitStringVector", BitStringVector, act_individual, dict(bounds=opt(("0..1", val((0, 1)))), vector=VEC, update_parents=NO), lambda r: dict(fitness=Fixed(SimpleFitness), length=4), n=6)
K("IntVector", IntVector, act_individual, dict(bounds=opt(("int32", val((-2**31, 2**31 - 1))), ("3..5", val((3, 5)))), vector=VEC, update_parents=NO), lambda r: dict(fitness=Fixed(SimpleFitness), length=4), n=6)
K("FloatVector", FloatVector, act_individual, dict(bounds=FBND, vector=VEC, update_parents=NO), lambda r: dict(fitness=Fixed(SimpleFitness), length=4), n=6)
K("Tree", Tree, act_individual, dict(fitness=opt(("own", GPFitness), ("simple", SimpleFitness)), tree=opt(NONE, ("given", lambda: [TerminalNode("x")])),
                                     erc_range=opt(NONE, ("0..9", val((0, 9)))), root_type=opt(NONE), update_parents=NO), lambda r: dict(PLAIN), n=6, times=2)
K("ThresholdFromTargetTerminationChecker", ThresholdFromTargetTerminationChecker, act_checker,
  dict(optimal=opt(("0.0", val(0.0)), ("1.0", val(1.0))), threshold=opt(("0.0", val(0.0)), ("0.1", val(.1))), higher_is_better=NO))
K("BestFitnessStagnationTerminationChecker", BestFitnessStagnationTerminationChecker, act_checker, dict(stagnation_generations_to_terminate=opt(("100", val(100)), ("3", val(3)))))
K("CrowdingTerminationChecker", CrowdingTerminationChecker, act_crowding, dict(threshold=opt(("0.1", val(.1)), ("0.01", val(.01)))))
from sklearn.metrics import accuracy_score, balanced_accuracy_score, mean_absolute_error, mean_squared_error
K("ClassificationEvaluator", ClassificationEvaluator, act_evaluator, dict(metric=opt(("accuracy", val(accuracy_score)), ("other", val(balanced_accuracy_score))), n_classes=opt(("2", val(2))),
                                                                         clf_method=opt(("sigmoid", val("sigmoid")))))
K("RegressionEvaluator", RegressionEvaluator, act_evaluator, dict(metric=opt(("mae", val(mean_absolute_error)), ("mse", val(mean_squared_error)))))
K("SimplePopulationEvaluator", SimplePopulationEvaluator, act_popeval, dict(executor_method=opt(("map", val("map")), ("submit", val("submit")))))


def creators(r, m=0):
    """one to three creators, the second and third recognisable"""
    f = NSGA2Fitness if m else SimpleFitness
    return [GAVectorCreator(length=3 + j, bounds=(0, 9), vector_type=IntVector, fitness_type=f) for j in range(1 if m else r.choice([1, 2, 3]))]


def subpop_fixed(r):
    s = r.randint(0, 10**6)
    n = random.Random(s).choice([1, 2, 3])
    return dict(evaluator=Fixed(lambda: Score(0)), creators=Fixed(lambda: creators(random.Random(s))), operators_sequence=Fixed(lambda: [IdentityTransformation()])), n


def someinds():
    r = random.Random(5)
    st = random.getstate()
    random.seed(5)
    out = vectors("int", r, 6, 3)
    random.setstate(st)
    return out


K("Subpopulation", Subpopulation, act_subpop,
  dict(pcr=opt(("even", None)), selection_methods=opt(("tournament10", None), ("tournament2", lambda: [(TournamentSelection(tournament_size=2), 1)])),
       elitism_rate=opt(("0.0", val(0.0)), ("0.02", val(.02))), population_size=opt(("200", val(200)), ("30", val(30)), ("6", val(6)), ("7", val(7))), individuals=opt(NONE), higher_is_better=NO), times=4)


def population(m, s, ops=True):
    r = random.Random(s)
    n = r.choice([2, 4])
    return Subpopulation(Score(m), creators=creators(r, m), population_size=n, higher_is_better=[r.random() < .5] * 2 if m else r.random() < .5,
                         operators_sequence=[VectorKPointsCrossover(probability=.8), VRM.IntVectorNPointMutation(probability=.9)],
                         selection_methods=[(TournamentSelection(tournament_size=2, higher_is_better=False), 1)])


class After(ThresholdFromTargetTerminationChecker):
    def should_terminate(self, pop, best, gen):
        return gen >= 4


class Never(ThresholdFromTargetTerminationChecker):
    def should_terminate(self, pop, best, gen):
        return False


ALG = dict(statistics=opt(("none", lambda: None), ("some", lambda: [Looker()])), breeder=opt(("own", SimpleBreeder)), population_evaluator=opt(("own", SimplePopulationEvaluator), ("submit", lambda: SimplePopulationEvaluator("submit"))),
           events=opt(NONE), event_names=opt(NONE, ("more", lambda: ["mine"])), termination_checker=opt(NONE, ("four", After), ("never", Never)),
           max_generation=opt(("500", val(500)), ("3", val(3)), ("0", val(0))), executor=opt(("thread", val("thread"))), max_workers=opt(NONE, ("2", val(2))),
           random_generator=opt(("own", RNG)), generation_seed=opt(NONE, ("9", val(9))), generation_num=opt(("0", val(0))))


def alg_fixed(m):
    def f(r):
        s = r.randint(0, 10**6)
        return dict(population=Fixed(lambda: population(m, s)), random_seed=r.randint(0, 99))
    return f


K("SimpleEvolution", SimpleEvolution, act_algo, ALG, alg_fixed(0), n=1, times=3)
K("NSGA2Evolution", NSGA2Evolution, act_algo, dict(ALG, breeder=opt(("own", NSGA2Breeder)), NSGA2FrontSorting=opt(("own", NSGA2FrontSorting))), alg_fixed(1), n=1, times=3)
K("Algorithm", MyAlgorithm, act_algo, dict(events=opt(NONE), event_names=opt(NONE, ("more", lambda: ["mine"])), termination_checker=opt(NONE, ("four", After), ("never", Never)),
                                           max_generation=opt(("100", val(100)), ("3", val(3))), random_generator=opt(("own", RNG)), generation_seed=opt(NONE, ("9", val(9))),
                                           max_workers=opt(NONE, ("2", val(2))), generation_num=opt(("0", val(0)))),
  lambda r: dict(alg_fixed(0)(r), statistics=Fixed(lambda: [Looker()]), breeder=Fixed(SimpleBreeder), population_evaluator=Fixed(SimplePopulationEvaluator), executor="thread"), n=1)


def even(fixed):
    n = len(fixed["creators"].f())
    return lambda: [1 / n] * n


def ep(name):
    def run_ep(rec):
        r = rec.rnd
        k = KINDS[name]
        HIST.clear()
        O, A = Interner(), Interner()
        algo = k.act is act_algo
        opts = k.opts
        if name == "Subpopulation":
            fixed, _ = subpop_fixed(r)
            opts = dict(opts, pcr=[("even", even(fixed))],
                        selection_methods=opts["selection_methods"])
        else:
            fixed = k.fixed(r)
        # the values in force: most options at their default
        much = r.choice([0, .2, .4, .7])
        other = {o: r.choice(v[1:]) for o, v in opts.items() if len(v) > 1 and r.random() < much}
        if algo and "max_generation" not in other and "termination_checker" not in other and r.random() < .8:
            o = r.choice(["max_generation", "termination_checker"])
            other[o] = r.choice(opts[o][1:] if o == "max_generation" else opts[o][1:] + opts[o][1:2] * 2)

        if algo and r.random() < .2:
            other = {"termination_checker": ("never", Never)} if r.random() < .7 else {}

        def make(which):
            """which: the options given with their default"""
            given = dict(other)
            for o in which:
                given.setdefault(o, opts[o][0])
            kw = {o: v.f() if isinstance(v, Fixed) else v for o, v in fixed.items()}
            for o, (label, v) in given.items():
                if name == "Subpopulation" and label == "tournament10":
                    kw[o] = [(TournamentSelection(tournament_size=10, higher_is_better=given.get("higher_is_better", ("no",))[0] == "yes"), 1)]
                else:
                    kw[o] = v()
            random.seed(3)
            np.random.seed(3)
            rec.ev("Made", k=name, given=[[o, g[0]] for o, g in sorted(given.items())])
            return k.cls(**kw)
        sets = [[], sorted(opts)] + [[o for o in sorted(opts) if r.random() < .5] for _ in range(r.choice([0, 1, 2]))]
        if r.random() < .3:
            sets.append([])
        r.shuffle(sets)
        insts = [make(w) for w in sets]
        acts = [r.randint(0, 10**6) for _ in range(k.n or r.choice([1, 2, 3]))]
        todo = [list(acts) for _ in insts]

        def one(j):
            s = todo[j].pop(0)
            random.seed(s)
            np.random.seed(s % 2**32)
            try:
                out = repr(("ok", k.act(insts[j], s)))
            except Exception as ex:
                if OPT.get("debug"):
                    import traceback
                    print(name, "".join(traceback.format_exc().splitlines()[-2:]))
                out = repr(("exc", type(ex).__name__))
            if OPT.get("debug"):
                print(name, j, s, out[:300])
            rec.ev("Did", i=j + 1, act=A(s), out=O(out), exc=out.startswith("('exc'"))
        if algo and len(insts) > 1 and r.random() < .5:
            # the other runs go on inside the first one
            j = r.randrange(len(insts))
            insts[j].inner = [lambda h=h: one(h) for h in range(len(insts)) if h != j][:2]
            one(j)
        while any(todo):
            one(r.choice([j for j in range(len(insts)) if todo[j]]))
    run_ep.tag = name
    return run_ep


n = 8 if THOROUGH else 1
eps = [ep(k) for k in KINDS for _ in range(KINDS[k].times * (8 if KINDS[k].act is act_algo else 20) * n)]
run(eps)
