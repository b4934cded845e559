"""Components that have been used before against new ones (C34)."""
from treelib import *
import contextlib, copy, hashlib, io, zlib
from concurrent.futures import ThreadPoolExecutor
from eckity.genetic_encodings.ga import BitStringVector, IntVector, FloatVector
from eckity.fitness import SimpleFitness, GPFitness
from eckity.genetic_operators import VectorNPointMutation
from eckity.genetic_operators.selections.elitism_selection import ElitismSelection
from eckity.multi_objective_evolution.crowding_termination_checker import CrowdingTerminationChecker
from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
from eckity.multi_objective_evolution.nsga2_front_sorting import NSGA2FrontSorting
from eckity.statistics.best_average_worst_statistics import BestAverageWorstStatistics
from eckity.statistics.best_avg_worst_size_tree_statistics import BestAverageWorstSizeTreeStatistics
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
from typedlib import tree_conf, tree_creator
from stats_text import captured

CLS = dict(bit=BitStringVector, int=IntVector, float=FloatVector)


class Boom(Exception):
    pass


def fitness_face(f):
    if not f.is_fitness_evaluated():
        return None
    v = f.fitness
    return ([repr(float(x)) for x in v] if isinstance(v, (list, tuple, np.ndarray)) else repr(float(v)), getattr(f, "front_rank", None), repr(getattr(f, "crowding", None)))


def cell(x):
    return type(x).__name__, repr(x)


def face(i, idless=False):
    """what can be seen of an individual, apart from identities made on the way"""
    g = [cell(x) for x in i.vector] if hasattr(i, "vector") else [
        (n.function.__name__,) if isinstance(n, FunctionNode) else (cell(n.value), str(n.node_type)) for n in i.tree]
    own = None if hasattr(i, "vector") else (    # what new nodes of the tree are made of
        [f.__name__ for f in i.function_set], [cell(t) for t in i.terminal_set], repr(i.terminal_set), repr(i.erc_range), str(i.root_type))
    return (type(i).__name__, g, own, repr(getattr(i, "bounds", None)), list(i.applied_operators), list(i.selected_by), None if idless else i.cloned_from,
            i.gen, i.fitness.higher_is_better, fitness_face(i.fitness))


def twin(i):
    t = copy.deepcopy(i)
    t.fitness.__dict__.update(copy.copy(i.fitness.__dict__))
    return t


def times(rec, n):
    """now and then a component is used very many times"""
    return n if rec.rnd.random() < .95 else rec.rnd.choice([70, 130, 160])


class Uses:
    """used components of one configuration, next to new ones"""

    def __init__(self, rec, make, name):
        self.rec, self.make, self.I, self.O = rec, make, Interner(), Interner()
        self.used = [make() for _ in range(rec.rnd.choice([1, 2, 3]))]
        rec.ev("Cfg", what=name, n=len(self.used))

    def use(self, what, act, real, copies, seen, key, reuse=True):
        """act(component, input) -> what came out; the same for a used component with the real input and for a new one with its copy"""
        r = self.rec.rnd
        c = r.randrange(len(self.used)) if r.random() < .6 else 0
        s = r.randint(0, 5)

        def one(comp, x):
            random.seed(s)
            np.random.seed(s)
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    out = act(comp, x)
                return repr(("ok", out, seen(x)))
            except Exception as ex:
                if OPT.get("debug"):
                    import traceback
                    traceback.print_exc()
                return repr(("exc", type(ex).__name__, seen(x)))
        k = repr((s, what, key))
        new = one(self.make(), copies)
        old = one(self.used[c], real)
        self.rec.ev("Use", c=c + 1, key=self.I(k), out=self.O(old), new=self.O(new), what=what, exc=old.startswith("('exc'"))


# ------------------------------------------------------------------ operators
def mutable(kind, s):
    """a user's n-point mutation whose new values come from a function that sometimes raises"""
    def val(ind, i):
        if zlib.crc32(repr((s, ind.vector)).encode()) % 3 == 0:
            raise Boom()
        return ind.get_random_number_in_bounds(i)
    return VectorNPointMutation(probability=1, arity=1, mut_val_getter=val, n=1 + s % 2, success_checker=lambda a, b: a != b, attempts=2)


def ep_vecop(rec):
    r = rec.rnd
    kind = r.choice(["bit", "int", "float"])
    s = r.randint(0, 10**9)
    short = r.choice([1, 2, 3, 4])

    def make():
        rr = random.Random(s)
        if s % 9 == 0:
            return mutable(kind, s)
        return rr.choice(vec_ops(rr, kind, 6, short)[:None if s % 10 == 0 else -2])()
    u = Uses(rec, make, type(make()).__name__)
    groups = []
    for _ in range(r.choice([1, 2, 3])):
        n = short + r.choice([0, 0, 1, 2, 5, 30])
        inds = []
        for _ in range(r.choice([3, 4, 6])):
            b = (0, 1) if kind == "bit" else r.choice([(-3, 3), (10, 12), [(j, j + 2) for j in range(n)]])
            if kind == "float":
                b = [(float(x), float(y)) for x, y in b] if isinstance(b, list) else (float(b[0]), float(b[1]))
            i = CLS[kind](SimpleFitness(), n, bounds=b)
            i.set_vector([i.get_random_number_in_bounds(j) for j in range(n)])
            inds.append(i)
        groups.append(inds)
    for _ in range(times(rec, r.choice([4, 8, 12]))):
        g = r.choice(groups)
        x = r.sample(g, min(u.used[0].arity, len(g)))
        if len(x) < u.used[0].arity:
            continue
        for i in x:
            if r.random() < .5:
                i.fitness.set_fitness(r.randint(0, 9))
        cp = [twin(i) for i in x]
        u.use("apply", lambda o, l: [l.index(i) for i in o.apply_operator(list(l))], x, cp, lambda l: [face(i) for i in l], [face(i) for i in x])
        if r.random() < .3:                # back to older contents, the same individual
            i = r.choice(x)
            i.set_vector([i.get_random_number_in_bounds(j) for j in range(len(i.vector))])


def ep_treeop(rec):
    r = rec.rnd
    s = r.randint(0, 10**9)

    def make():
        rr = random.Random(s)
        ops = tree_ops(rr, 6)
        return rr.choice([ops[0], ops[1], ops[-1], ops[-1]] if s % 10 else ops)()
    u = Uses(rec, make, type(make()).__name__)
    groups = []
    for _ in range(r.choice([1, 2, 3])):
        cfg = Cfg(r)
        groups.append(creator(r, cfg).create_individuals(r.choice([3, 4, 6]), True))
    for _ in range(times(rec, r.choice([4, 8, 12]))):
        g = r.choice(groups)
        x = r.sample(g, min(u.used[0].arity, len(g)))
        if len(x) < u.used[0].arity:
            continue
        cp = [twin(i) for i in x]
        u.use("apply", lambda o, l: [l.index(i) for i in o.apply_operator(list(l))], x, cp, lambda l: [face(i) for i in l], [face(i) for i in x])


# ----------------------------------------------------------------- selections
def ep_selection(rec):
    r = rec.rnd
    k = r.choice(["tour", "tournr", "fp", "elite"])
    hib = r.random() < .5
    t = r.choice([1, 2, 3, 3, 8])
    make = dict(tour=lambda: TournamentSelection(t, higher_is_better=hib), tournr=lambda: TournamentSelection(t, higher_is_better=hib, replace=False),
                fp=lambda: FitnessProportionateSelection(higher_is_better=hib), elite=lambda: ElitismSelection(t, higher_is_better=hib))[k]
    u = Uses(rec, make, k)
    pops = []
    for _ in range(r.choice([1, 2, 3])):
        n = r.choice([1, 2, 3, 4, 6, 9, 40])
        pops.append([BitStringVector(SimpleFitness(higher_is_better=hib), 2, vector=[r.randint(0, 1), r.randint(0, 1)]) for _ in range(n)])
    for _ in range(times(rec, r.choice([4, 8, 12]))):
        p = r.choice(pops)
        if r.random() < .8:
            w = r.choice([2, 5, 100])
            for i in p:
                i.fitness.set_fitness(r.randint(0, w) / 8)
        elif r.random() < .3:
            r.choice(p).set_fitness_not_evaluated() if hasattr(p[0], "set_fitness_not_evaluated") else r.choice(p).fitness.set_not_evaluated()
        cp = [twin(i) for i in p]
        if r.random() < .3:                # the same list object with other members
            p[:] = p[::-1]
            cp.reverse()
        u.use("select", lambda o, l: [face(i) for i in o.select(l, [])], p, cp, lambda l: [face(i) for i in l], [(i.id, face(i)) for i in p])


# ------------------------------------------------------------------- creators
def ep_creator(rec):
    r = rec.rnd
    s = r.randint(0, 10**9)
    if r.random() < .5:
        cfg = Cfg(r)
        make = lambda: creator(random.Random(s), cfg)
    else:
        c = random_conf(r)
        c.kind = r.choice(["bit", "int", "float"])
        make = lambda: make_creator(c, random.Random(s))
    u = Uses(rec, make, type(make()).__name__)
    for _ in range(times(rec, r.choice([4, 8, 12]))):
        x = (r.choice([0, 1, 1, 2, 5, 12]), r.random() < .5)
        u.use("create", lambda o, a: [face(i) for i in o.create_individuals(*a)], x, x, lambda a: a, x)


class PickyGrow(GrowCreator):
    """a creator of a user, which cannot make trees of some depths"""
    cannot = None

    def create_individuals(self, n_individuals, higher_is_better):
        if self.init_depth == self.cannot:
            raise Boom()
        return super().create_individuals(n_individuals, higher_is_better)


class PickyFull(FullCreator):
    cannot = None

    def create_individuals(self, n_individuals, higher_is_better):
        if self.init_depth == self.cannot:
            raise Boom()
        return super().create_individuals(n_individuals, higher_is_better)


def ep_half(rec):
    """a half-and-half creator with creators of the user, which are also used alone"""
    r = rec.rnd
    cfg = Cfg(r)
    ds = [r.choice([(1, 2), (1, 3), (2, 3), (2, 2), (1, 1)]) for _ in range(3)]
    which = r.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
    lo, hi = ds[0]
    cannot = [r.choice([None, None, (lo, hi), (lo, r.randint(lo, hi))]) for _ in range(2)]

    def make():
        a = cfg.creator_args()
        g, f = PickyGrow(init_depth=ds[1], **a), PickyFull(init_depth=ds[2], **a)
        g.cannot, f.cannot = cannot
        return [HalfCreator(init_depth=ds[0], grow_creator=g if which[0] else None, full_creator=f if which[1] else None, **a), g, f]
    u = Uses(rec, make, "half")
    for _ in range(r.choice([4, 8])):
        x = (r.choice([0, 0, 1, 2]), r.choice([1, 6, 7, 9, 12, 13, 13]), r.random() < .5)
        u.use("create", lambda o, a: [face(i) for i in o[a[0]].create_individuals(*a[1:])], x, x, lambda a: a, x)


# ---------------------------------------------- breeders, evaluators, checkers
def pop_of(c, s, inds, ops=None, sel=None, ev=None):
    rr = random.Random(s)
    cr, o, se = make_creator(c, rr), make_ops(c, rr), make_selection(c, rr)
    return Population([Subpopulation(ev or FakeEval(), creators=cr, operators_sequence=o if ops is None else ops, selection_methods=[(sel or se, 1)],
                                     elitism_rate=c.elitism, population_size=len(inds), individuals=inds, higher_is_better=c.hib)]), o, se


class FakeEval(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return 0


def seen_pop(p):
    return [[face(i) for i in sp.individuals] for sp in p.sub_populations]


def scored(c, inds):
    for i in inds:
        i.fitness.set_fitness(c.score(i))


def ep_breeder(rec):
    """one breeder and one set of operators and selections for several populations"""
    r = rec.rnd
    c = random_conf(r)
    c.n = r.choice([2, 4, 6, 12])
    s = r.randint(0, 10**9)
    c.elitism = r.choice([0, .25, .5])
    if c.selk == "tournr":
        c.selk = "tour"
    make = lambda: (SimpleBreeder(), *pop_of(c, s, [None] * c.n)[1:])
    u = Uses(rec, make, "breeder")
    pops = []
    for _ in range(r.choice([1, 2, 3])):
        n = c.n * r.choice([1, 1, 2, 3])
        pops.append(make_creator(c, random.Random(s)).create_individuals(n, c.hib))
    for _ in range(r.choice([3, 6])):
        p = r.choice(pops)
        scored(c, p)
        if r.random() < .1:
            p[0].fitness.set_not_evaluated()
        cp = [twin(i) for i in p]
        real, copies = dict(l=p), dict(l=cp)

        def act(comp, d):
            b, ops, sel = comp
            pop, *_ = pop_of(c, s, list(d["l"]), ops, sel)
            b.breed(pop)
            return [face(i) for i in pop.sub_populations[0].individuals]
        # parents inside the step are clones made on the way: their ids are not compared
        u.use("breed", lambda comp, d: [f[:5] + f[6:] for f in act(comp, d)], real, copies, lambda d: [face(i) for i in d["l"]], [(i.id, face(i)) for i in p])
        if r.random() < .4:
            i = r.choice(p)
            if hasattr(i, "vector"):
                i.set_vector([i.get_random_number_in_bounds(j) for j in range(len(i.vector))])


class ScoreEval(SimpleIndividualEvaluator):
    def __init__(self, score, bad):
        super().__init__()
        self.score, self.bad = score, bad

    def evaluate_individual(self, ind):
        if self.bad and zlib.crc32(repr(genome(ind)).encode()) % self.bad == 0:
            raise Boom()
        return self.score(ind)


EX = ThreadPoolExecutor(2)


def ep_evaluator(rec):
    r = rec.rnd
    c = random_conf(r)
    method, bad, s = r.choice(["map", "submit"]), r.choice([0, 0, 0, 0, 5, 12]), r.randint(0, 10**9)
    if r.random() < .7:
        c.score.m, c.score.inf, c.score.smooth = r.choice([2, 3, 5]), 0, 0

    def make():
        e = SimplePopulationEvaluator(executor_method=method)
        e.set_executor(EX)
        return e, ScoreEval(c.score, bad)
    u = Uses(rec, make, "evaluator")
    cr = make_creator(c, random.Random(s))
    pops = [cr.create_individuals(r.choice([1, 2, 5, 9, 40]), c.hib) for _ in range(r.choice([1, 2, 3]))]
    for _ in range(times(rec, r.choice([4, 8, 12]))):
        p = r.choice(pops)
        for i in p:
            if hasattr(i, "vector") and r.random() < .4:
                i.set_vector([i.get_random_number_in_bounds(j) for j in range(len(i.vector))])
            elif r.random() < .2 and not hasattr(i, "vector"):
                i.tree = list(r.choice(p).tree)
            if r.random() < .3:
                i.fitness.set_not_evaluated()
        if r.random() < .3 and len(p) > 1:
            p.pop()
        cp = [twin(i) for i in p]

        def act(comp, d):
            pe, ev = comp
            pop, *_ = pop_of(c, s, d["l"], ev=ev)
            best = pe.act(pop)
            return next(k for k, i in enumerate(d["l"]) if i is best)
        u.use("evaluate", act, dict(l=p), dict(l=cp), lambda d: [face(i) for i in d["l"]], [face(i) for i in p])


def ep_checker(rec):
    r = rec.rnd
    t, th, hib = r.choice([0, 1.5, -2]), r.choice([0, .25, 1]), r.random() < .5
    k = r.choice(["target", "crowd"])
    make = (lambda: ThresholdFromTargetTerminationChecker(optimal=t, threshold=th, higher_is_better=hib)) if k == "target" else (lambda: CrowdingTerminationChecker(threshold=th))
    u = Uses(rec, make, k)
    for _ in range(times(rec, r.choice([5, 10]))):
        if k == "target":
            i = BitStringVector(SimpleFitness(higher_is_better=hib), 1, vector=[0])
            i.fitness.set_fitness(t + r.randint(-12, 12) / 8)
            x = [i]
        else:
            x = []
            for _ in range(r.choice([1, 2, 5])):
                i = BitStringVector(NSGA2Fitness(), 1, vector=[0])
                i.fitness.set_fitness([1.0, 2.0])
                i.fitness.crowding = r.choice([0.0, .1, .25, .5, 1.0, 2.0, float("inf")])
                i.fitness.front_rank = 1
                x.append(i)
        p, *_ = pop_of(CREF, 1, x)
        g = r.randint(0, 5)
        u.use("ask", lambda o, l: bool(o.should_terminate(p, l[0], g)), x, [twin(i) for i in x], lambda l: [face(i) for i in l], [g] + [face(i) for i in x])


CREF = random_conf(random.Random(5))
CREF.kind, CREF.nops, CREF.elitism = "bit", 0, 0


def ep_stat(rec):
    r = rec.rnd
    tree = r.random() < .5
    fmt = r.choice([None, "R {}|{}|{}" + ("|{}" if tree else "")])
    cls = BestAverageWorstSizeTreeStatistics if tree else BestAverageWorstStatistics
    make = (lambda: cls()) if fmt is None else (lambda: cls(format_string=fmt))
    u = Uses(rec, make, cls.__name__)
    c = random_conf(r)
    c.kind = "tree" if tree else "bit"
    c.bloat8 = 0
    cr = make_creator(c, random.Random(3))
    pops = [cr.create_individuals(r.choice([1, 2, 5, 20]), c.hib) for _ in range(2)]

    class Alg:
        pass
    for g in range(times(rec, r.choice([3, 6, 15, 25]))):
        x = r.choice(pops)
        for i in x:
            i.fitness.set_fitness(r.randint(0, 20) / 4)

        def act(o, l):
            pop, *_ = pop_of(CREF, 1, l)
            a = Alg()
            a.population = pop
            with captured() as out:
                o.write_statistics(a, dict(generation_num=g, population=pop, best_of_run_=l[0], best_of_gen=l[0]))
            return [y for y in out if y.strip()]
        u.use("write", act, x, [twin(i) for i in x], lambda l: [face(i) for i in l], [g] + [face(i) for i in x])


def ep_nsga(rec):
    """the breeder and the sorting of NSGA-II over several populations"""
    r = rec.rnd
    c = random_conf(r, nsga=True)
    s = r.randint(0, 10**9)
    make = lambda: (NSGA2Breeder(), *pop_of(c, s, [None] * c.n)[1:], NSGA2FrontSorting())
    u = Uses(rec, make, "nsga")
    pops = [make_creator(c, random.Random(s)).create_individuals(c.n, c.hib) for _ in range(r.choice([1, 2]))]
    for _ in range(r.choice([2, 4])):
        p = r.choice(pops)
        scored_once(c, p)
        cp = [twin(i) for i in p]

        def act(comp, d):
            b, ops, sel, sort = comp
            pop, *_ = pop_of(c, s, list(d["l"]), ops, sel)
            b.breed(pop)
            inds = pop.sub_populations[0].individuals
            scored_once(c, inds)
            sort.select_for_population(pop)
            d["out"] = pop.sub_populations[0].individuals
            return [face(i, True) for i in d["out"]]
        real, copies = dict(l=p), dict(l=cp)
        u.use("step", act, real, copies, lambda d: [face(i, True) for i in d["l"]], [face(i) for i in p])
        if r.random() < .6 and "out" in real:
            p[:] = real["out"]


def ep_sorter(rec):
    """survivors of the same individuals again and again"""
    r = rec.rnd
    u = Uses(rec, NSGA2FrontSorting, "sorter")
    k = r.choice([1, 2, 2, 3])
    hib = r.choice([True, False, [r.random() < .5 for _ in range(k)]])
    w = r.choice([2, 5, 9])
    inds = []
    for _ in range(times(rec, r.choice([4, 8, 12]))):
        i = BitStringVector(NSGA2Fitness(higher_is_better=copy.copy(hib)), 1, vector=[0])
        i.fitness.set_fitness([r.randint(0, w) / 8 for _ in range(k)])
        inds.append(i)
    for _ in range(times(rec, r.choice([4, 8, 16]))):
        for i in inds:
            if r.random() < .4:
                i.fitness.set_not_evaluated()
                i.fitness.set_fitness([r.randint(0, w) / 8 for _ in range(k)])
        x = r.sample(inds, r.randint(2, len(inds)))
        n = r.choice([None, 1, len(x), r.randint(1, len(x))])

        def act(o, l):
            pop, *_ = pop_of(CREF, 1, list(l))
            o.select_for_population(pop, n)
            return [next(j for j, a in enumerate(l) if a is i) for i in pop.sub_populations[0].individuals]
        u.use("sort", act, x, [twin(i) for i in x], lambda l: [face(i) for i in l], [n] + [face(i) for i in x])


def scored_once(c, inds):
    for i in inds:
        if not i.fitness.is_fitness_evaluated():
            i.fitness.set_fitness(c.score(i))


# ----------------------------------------------------------------------- runs
class Parts:
    """what a run is made of"""

    def __init__(self, c, s):
        r = random.Random(s)
        self.creator, self.ops, self.sel = (tree_creator if c.tree else make_creator)(c, r), make_ops(c, r), make_selection(c, r)
        self.ev = ScoreEval(c.score, 0)
        self.pe = SimplePopulationEvaluator(executor_method=c.method)
        self.breeder = NSGA2Breeder() if c.nsga else SimpleBreeder()
        self.chk = None if c.nsga else ThresholdFromTargetTerminationChecker(optimal=10**6, threshold=c.target, higher_is_better=c.hib)
        self.rng = RNG()


def alg_of(c, p, n, seed, gens, alone=True):
    """alone: no other run of these parts is under way"""
    sp = Subpopulation(p.ev, creators=p.creator, operators_sequence=p.ops, selection_methods=[(p.sel, 1)], elitism_rate=c.elitism, population_size=n, higher_is_better=c.hib)
    kw = dict(population_evaluator=p.pe if alone else SimplePopulationEvaluator(executor_method=c.method), max_generation=gens, executor="thread", max_workers=2,
              random_seed=seed, random_generator=p.rng, termination_checker=p.chk)
    return NSGA2Evolution(sp, breeder=p.breeder if alone else NSGA2Breeder(), **kw) if c.nsga else SimpleEvolution(sp, breeder=p.breeder if alone else SimpleBreeder(), **kw)


def go(alg, hook=None):
    hist = []

    def log(s, d):
        inds = alg.population.sub_populations[0].individuals
        b = alg.best_of_run_
        hist.append(([(face(i, True)[1], fitness_face(i.fitness)) for i in inds], [face(i, True)[1] for i in (b if isinstance(b, list) else [b]) if i is not None]))
        if hook:
            hook()
    alg.register("init", log)
    alg.register("after_generation", log)
    with contextlib.redirect_stdout(io.StringIO()):
        alg.evolve()
    return hist


def ep_runs(rec):
    r = rec.rnd
    kind = r.choice(["vec", "tree", "nsga"])
    c = tree_conf(r) if kind == "tree" else random_conf(r, nsga=kind == "nsga")
    c.tree = kind == "tree"
    c.n = r.choice([2, 4, 6, 12])
    c.target = r.choice([0, 10**6])
    if c.selk == "tournr":
        c.selk = "tour"
    s = r.randint(0, 10**9)
    make = lambda: Parts(c, s)
    u = Uses(rec, make, "run " + kind)
    for _ in range(r.choice([2, 3])):
        n, seed, gens = c.n * r.choice([1, 1, 2]), r.choice([0, 1, 77]), r.choice([1, 2, 4])
        nested = r.random() < .4
        x = (n, seed, gens)

        def act(p, a):
            # the run of used parts may have other runs of the same parts inside its callbacks
            inner = nested and p in u.used
            k = [0]

            def hook():
                k[0] += 1
                if k[0] < 3:
                    go(alg_of(c, p, c.n, 5 + k[0], 2, alone=False))
            return go(alg_of(c, p, *a), hook if inner else None)
        u.use("run", act, x, x, lambda a: a, x)


q = 8 if THOROUGH else 1
run([ep_vecop] * (150 * q) + [ep_treeop] * (80 * q) + [ep_selection] * (80 * q) + [ep_creator] * (60 * q) + [ep_half] * (60 * q) + [ep_breeder] * (80 * q) + [ep_evaluator] * (60 * q)
    + [ep_checker] * (30 * q) + [ep_stat] * (30 * q) + [ep_nsga] * (50 * q) + [ep_sorter] * (60 * q) + [ep_runs] * (40 * q))
