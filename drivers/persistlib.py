"""Picklable helpers for persist.py and its child processes."""
from typedlib import *
import copy, hashlib, io, pickle, types, enum


class Hist:
    """callback keeping the history of the algorithm it is registered with"""

    def __init__(self):
        self.h = []

    def __call__(self, sender, data):
        self.h.append(moment(sender))


class Copier:
    """callback that copies its algorithm; its own copies are inert"""

    def __init__(self, todo, alg):
        self.todo, self.alg = todo, alg

    def __getstate__(self):
        return dict(todo=None, alg=None)

    def __call__(self, sender, data):
        if self.todo:
            self.todo(self.alg)


class Nudge:
    """a user's callback that has an effect on the run"""

    def __call__(self, sender, data):
        random.random()
        np.random.random()


def cells(i):
    return tuple((type(x).__name__, repr(x)) for x in i.vector) if hasattr(i, "vector") else genome(i)


def dig(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def moment(alg):
    inds = alg.population.sub_populations[0].individuals
    b = alg.best_of_run_
    return dig(([cells(i) for i in inds], cells(b) if b is not None else None, alg.generation_num, alg.generation_seed))


def view(alg, it):
    """what C21 says a copy has in common with the original"""
    sps = alg.population.sub_populations
    inds = [i for sp in sps for i in (sp.individuals or [])]
    b = alg.best_of_run_
    return dict(pop=[it(("g", cells(i))) for i in inds], ids=[i.id for i in inds], gens=[i.gen for i in inds] + [alg.generation_num, alg.max_generation,
                it(("final", alg.final_generation_))],
                seeds=pair(alg.random_seed) + pair(alg.generation_seed), best=0 if b is None else it(("g", cells(b))))


IGNORE = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type, logging.Logger, io.IOBase, enum.Enum, str, bytes, int, float,
          complex, bool, type(None), np.generic, types.GenericAlias, range, slice, np.dtype, np.ufunc, types.MappingProxyType)
PASS = (tuple, frozenset, types.MethodType)  # immutable themselves, their parts need not be


def reachable(root):
    """mutable objects reachable from an algorithm"""
    import concurrent.futures
    seen, out, todo = set(), {}, [root]
    while todo:
        x = todo.pop()
        if isinstance(x, IGNORE) or isinstance(x, concurrent.futures.Executor) or id(x) in seen:
            continue
        seen.add(id(x))
        if type(x).__module__ in ("typing", "_thread", "threading"):
            continue
        if isinstance(x, types.MethodType):
            todo.append(x.__self__)
            continue
        if not isinstance(x, PASS):
            out[id(x)] = x
        if isinstance(x, dict):
            todo += list(x.keys()) + list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += list(x)
        elif isinstance(x, np.ndarray):
            if x.base is not None:
                todo.append(x.base)
            if x.dtype == object:
                todo += list(x.reshape(-1))
        d = getattr(x, "__dict__", None)
        if isinstance(d, dict):
            todo += list(d.values())
    return out


def shared(a, b):
    ra, rb = reachable(a), reachable(b)
    common = [x for k, x in ra.items() if k in rb]
    if a.executor is b.executor:
        common.append(a.executor)
    return sorted({type(x).__name__ for x in common})


class Shifted(RNG):
    """a user's own random generator"""

    def set_seed(self, seed):
        super().set_seed((seed * 7 + 1) % 2**32)


class Counting(RNG):
    """... with a state of its own"""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def set_seed(self, seed):
        self.n += 1
        super().set_seed((seed + self.n) % 2**32)


def make(cseed, kind, executor):
    r = random.Random(cseed)
    big = r.choice(["pop", "gens", "long"]) if cseed % 16 == 0 and executor == "thread" else False
    c = tree_conf(r) if kind == "tree" else random_conf(r, nsga=kind == "nsga", big=big)
    c.maxgen = max(c.maxgen, 1)
    c.executor = executor
    if executor == "process":
        c.workers, c.n = 2, min(c.n, 4)
        c.maxgen = min(c.maxgen, 2)
        c.nops, c.elitism = 0, 0
    import evolib
    old = evolib.make_creator
    if c.kind == "tree" and r.random() < .5 and kind == "tree" and executor == "thread":
        evolib.make_creator = tree_creator
    else:
        c.typed = False
    try:
        alg, _, _ = build(c, r)
    finally:
        evolib.make_creator = old
    if r.random() < .5 and not c.nsga:
        from eckity.statistics.best_average_worst_statistics import BestAverageWorstStatistics
        alg.statistics = [BestAverageWorstStatistics()]
    if c.nsga and c.score.objectives == 2 and r.random() < .6:
        from eckity.multi_objective_evolution.moe_best_worst_statistics import MOEBestWorstStatistics
        alg.statistics = [MOEBestWorstStatistics()]
    if r.random() < .3 and not c.nsga:
        from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
        alg.termination_checker = ThresholdFromTargetTerminationChecker(optimal=10**6, threshold=0.5, higher_is_better=c.hib)
        if r.random() < .7:      # several, one of which may well stop the run
            c.maxgen += 3
            alg.max_generation = c.maxgen
            stops = ThresholdFromTargetTerminationChecker(optimal=r.randint(-2, 4) / 4, threshold=r.choice([0.25, .5, 2]), higher_is_better=c.hib)
            alg.termination_checker = r.sample([alg.termination_checker, stops], 2)
    k = r.random()
    if k < .6:
        alg.random_generator = Shifted() if k < .3 else Counting(r.randint(0, 99))
    if r.random() < .4:
        for x, e in ((alg.breeder, "before_operator"), (alg.population_evaluator, "after_operator"), (alg.breeder, "after_operator")):
            if r.random() < .6:
                x.register(e, Nudge())
    alg.h = Hist()
    for e in ("init", "after_generation", "evolution_finished"):
        alg.register(e, alg.h)
    return c, alg
