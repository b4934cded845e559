"""Building and recording evolutionary runs of the real code (shared by several drivers)."""
from drv import *
import threading, zlib, math
import numpy as np
from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.breeders.simple_breeder import SimpleBreeder
from eckity.creators import (GAVectorCreator, GABitStringVectorCreator, GAFloatVectorCreator, GAIntVectorCreator,
                             FullCreator, GrowCreator, HalfCreator)
from eckity.evaluators import SimplePopulationEvaluator, SimpleIndividualEvaluator
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode, Tree
from eckity.genetic_operators import *
from eckity.genetic_operators import FailableOperator, GeneticOperator
from eckity.multi_objective_evolution.nsga2_evolution import NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.population import Population
from eckity.random import RNG
from eckity.statistics.statistics import Statistics
from eckity.subpopulation import Subpopulation
from eckity.termination_checkers import TerminationChecker
from eckity.base.untyped_functions import f_add, f_sub, f_mul, f_neg, f_min, f_max
from eckity.base import untyped_functions as UF

INF = 100000000
NONE = -999999999


def genome(ind):
    """the genome as a hashable value"""
    if hasattr(ind, "vector"):
        return tuple(ind.vector)
    return tuple((n.function.__name__,) if isinstance(n, FunctionNode)
                 else ("t", type(n.value).__name__, n.value) for n in ind.tree)


def size(ind):
    return len(ind.vector) if hasattr(ind, "vector") else len(ind.tree)


def enc(x):
    """fitness (a multiple of 1/8) as an integer"""
    if x is None:
        return NONE
    x = float(x)
    if math.isinf(x):
        return INF if x > 0 else -INF
    if math.isnan(x) or x * 8 != int(x * 8):
        return -777777777
    return int(x * 8)


class Score:
    """deterministic score of a genome: a multiple of 1/8"""

    def __init__(self, salt, m, off, inf=0, nonneg=False, npf=False, smooth=False, objectives=0):
        self.salt, self.m, self.off, self.inf, self.nonneg, self.npf, self.smooth = salt, m, off, inf, nonneg, npf, smooth
        self.objectives = objectives

    def h(self, key, j=0):
        return zlib.crc32(repr((self.salt, j, key)).encode())

    def one(self, key, j=0):
        h = self.h(key, j)
        if self.inf and h % self.inf == 0:
            return float("inf") if (h // 97) % 3 else float("-inf")
        v = (h // 11) % self.m - self.off
        if self.smooth and key and not isinstance(key[0], tuple):
            v = int(8 * sum(key)) % 100000 if self.smooth == 1 else -int(8 * sum(key)) % 100000
        if self.nonneg:
            v = abs(v)
        v = v / 8
        return np.float64(v) if self.npf else v

    def __call__(self, ind):
        key = genome(ind)
        if self.objectives:
            return [self.one(key, j) for j in range(self.objectives)]
        return self.one(key)


class Evaluator(SimpleIndividualEvaluator):
    """evaluates by a Score; in-process calls are logged"""

    def __init__(self, score):
        super().__init__()
        self.score = score
        self.calls = []
        self.lock = threading.Lock()

    def evaluate_individual(self, ind):
        s = self.score(ind)
        with self.lock:
            self.calls.append((ind, genome(ind), size(ind), s))
        return s

    def __getstate__(self):
        d = dict(self.__dict__)
        d["calls"], d["lock"] = [], None
        return d

    def __setstate__(self, d):
        self.__dict__.update(d)
        self.lock = threading.Lock()


class SeedRNG(RNG):
    def __init__(self, rec):
        super().__init__()
        self.rec = rec

    def set_seed(self, seed):
        super().set_seed(seed)
        self.rec.ev("Seed", v=pair(seed))


def pair(x):
    return [int(x) >> 16, int(x) & 0xffff] if isinstance(x, (int, np.integer)) else [-1, -1]


class AlwaysFails(FailableOperator):
    def attempt_operator(self, payload, attempt_num):
        return False, payload


class Shuffle(GeneticOperator):
    """a user's crossover: rotates the genomes of its group"""

    def apply(self, inds):
        attr = "vector" if hasattr(inds[0], "vector") else "tree"
        gs = [getattr(i, attr) for i in inds]
        for i, g in zip(inds, gs[1:] + gs[:1]):
            setattr(i, attr, g)
        return inds


class Scripted(TerminationChecker):
    def __init__(self, rec, R, i, fire, alg):
        super().__init__()
        self.rec, self.R, self.i, self.fire, self.alg = rec, R, i, fire, alg

    def should_terminate(self, population, best_individual, gen_number):
        ans = gen_number in self.fire
        self.rec.ev("Chk", i=self.i, pop=(population is self.alg().population), run=best_individual is self.alg().best_of_run_,
                    best=[dict(f=self.R.fit(best_individual), size=size(best_individual))] if best_individual is not None else [],
                    gen=gen_number, ans=ans)
        return ans


class RecStat(Statistics):
    def __init__(self, rec, i):
        super().__init__("")
        self.rec, self.i = rec, i

    def write_statistics(self, sender, data):
        self.rec.ev("Stat", i=self.i, gen=data["generation_num"])


OWN = {}   # id -> the individual of this process that has it, over all runs


def own(ind):
    """no other individual made in this process has had this id"""
    return OWN.setdefault(ind.id, ind) is ind


class Recorder:
    """records what happens in a run through the library's extension points"""

    def __init__(self, rec, score):
        self.rec, self.score = rec, score
        self.G = Interner()
        self.F = Interner()

    def fit(self, ind):
        f = ind.fitness
        v = f.get_pure_fitness() if f.is_fitness_evaluated() else None
        if self.score.objectives:
            return NONE if v is None else self.F(tuple(enc(x) for x in v))
        return enc(v)

    def truth(self, ind):
        v = self.score(ind)
        return self.F(tuple(enc(x) for x in v)) if self.score.objectives else enc(v)

    def light(self, ind):
        return dict(u=self.rec.uid(ind), id=ind.id, g=self.G(genome(ind)), f=self.fit(ind),
                    ops=list(ind.applied_operators), par=list(ind.parents) if ind.update_parents else [], tr=bool(ind.update_parents))

    def store(self, ind):
        u = self.rec.uid
        s = [u(ind.fitness), u(ind.applied_operators), u(ind.selected_by)]
        if ind.update_parents:
            s.append(u(ind.parents))
        if hasattr(ind, "vector"):
            s.append(u(ind.vector))
        else:
            s.append(u(ind.tree))
            s += [u(n) for n in ind.tree]
        return s

    def full(self, ind):
        d = self.light(ind)
        d.update(st=self.store(ind), sc=self.truth(ind), size=size(ind), gen=ind.gen, cf=ind.cloned_from,
                 sel=list(ind.selected_by), own=True)
        return d

    def pop(self, inds):
        return [dict(self.full(i), own=own(i)) for i in inds]

    def none_or(self, ind, f):
        return [f(ind)] if ind is not None and not isinstance(ind, list) else []

    # -- instrumentation by subclassing the public extension points
    def wrap_op(self, op):
        me, cls = self, type(op)

        def apply_operator(self, inds):
            inds = list(inds)
            pre = [me.light(i) for i in inds]
            self._va = 0
            res = cls.apply_operator(self, inds)
            me.rec.ev("Op", name=cls.__name__, applied=self._va > 0, times=self._va, pre=pre,
                      post=[me.light(i) for i in inds], ret=[me.rec.uid(i) for i in res])
            return res

        def apply(self, inds):
            self._va += 1
            return cls.apply(self, inds)

        op._va = 0
        op.__class__ = type(cls.__name__, (cls,), dict(apply_operator=apply_operator, apply=apply))
        return op

    def wrap_sel(self, sel):
        me, cls = self, type(sel)

        def select(self, src, dest):
            n = len(dest)
            res = cls.select(self, src, dest)
            me.rec.ev("Sel", name=cls.__name__, src=[i.id for i in src],
                      new=[dict(me.light(i), own=own(i), cf=i.cloned_from, sel=list(i.selected_by)) for i in res[n:]], kept=n)
            return res

        sel.__class__ = type(cls.__name__, (cls,), dict(select=select))
        return sel

    def wrap_creator(self, c):
        me, cls = self, type(c)

        def create_individuals(self, n, hib):
            res = cls.create_individuals(self, n, hib)
            me.rec.ev("Create", n=n, hib=hib, made=len(res))
            return res

        c.__class__ = type(cls.__name__, (cls,), dict(create_individuals=create_individuals))
        return c

    def attach(self, alg, nsub):
        rec, me = self.rec, self
        alg.population_evaluator.register("before_operator", lambda s, d: rec.ev("EvalB"))

        def eval_end(s, d):
            ev = alg.population.sub_populations[0].evaluator
            calls, ev.calls = ev.calls, []
            rec.ev("EvalE", evs=[] if me.score.objectives else
                   [dict(g=me.G(g), sc=enc(s), size=sz) for i, g, sz, s in calls],
                   us=[rec.uid(i) for i, *_ in calls], n=len(alg.population.sub_populations[0].individuals))

        alg.population_evaluator.register("after_operator", eval_end)
        alg.breeder.register("before_operator", lambda s, d: rec.ev("BreedB"))
        alg.breeder.register("after_operator", lambda s, d: rec.ev("BreedE"))
        inds = lambda: alg.population.sub_populations[0].individuals
        alg.register("init", lambda s, d: rec.ev("InitEv", pop=me.pop(inds()), best=me.none_or(alg.best_of_run_, me.full)))

        def after(k):
            def cb(s, d):
                rec.ev("AfterGen", sub=k, gen=d["generation_num"], samepop=d["population"] is alg.population,
                       pop=me.pop(inds()) if k == 1 else [],
                       best=me.none_or(d["best_of_run_"], me.full) if k == 1 else [],
                       bog=me.none_or(d["best_of_gen"], me.light), wog=me.none_or(alg.worst_of_gen, me.light))
            return cb

        for k in range(1, nsub + 1):
            alg.register("after_generation", after(k))
            alg.register("evolution_finished", (lambda k: lambda s, d: rec.ev("Finished", sub=k))(k))


# --------------------------------------------------------------- random configurations
def divisors_ok(n, ar):
    return n % ar == 0


def vec_ops(r, kind, n, length):
    p = lambda: r.choice([1.0, 1.0, 0.7, 0.3, 0.0])
    ar = lambda: r.choice([a for a in (1, 1, 1, 2, 3) if n % a == 0])
    c = []
    if length >= 2 and n % 2 == 0:
        c.append(lambda: VectorKPointsCrossover(probability=p(), k=r.randint(1, length - 1)))
    m = lambda: r.randint(1, length)
    if kind == "bit":
        c += [lambda: BitStringVectorFlipMutation(probability=p(), arity=ar()),
              lambda: BitStringVectorNFlipMutation(probability=p(), arity=ar(), n=m(), probability_for_each=r.choice([.3, 1.0]))]
    elif kind == "int":
        c += [lambda: IntVectorNPointMutation(probability=p(), arity=ar(), n=m()),
              lambda: IntVectorOnePointMutation(probability=p(), arity=ar(), probability_for_each=.5)]
    else:
        c += [lambda: FloatVectorUniformOnePointMutation(probability=p(), arity=ar()),
              lambda: FloatVectorUniformNPointMutation(probability=p(), n=m(), arity=ar()),
              lambda: FloatVectorGaussOnePointMutation(probability=p(), sigma=r.choice([.5, 1e6]), attempts=r.choice([1, 3]), arity=ar()),
              lambda: FloatVectorGaussNPointMutation(probability=p(), n=m(), sigma=r.choice([.5, 1e6]), attempts=2, arity=ar())]
    c += common_ops(r, n)
    return c


def common_ops(r, n):
    p = lambda: r.choice([1.0, 0.5])
    c = [lambda: AlwaysFails(probability=p(), arity=1, attempts=2)]
    ks = [a for a in (2, 3, 4) if n % a == 0]
    if ks:
        c.append(lambda: Shuffle(probability=p(), arity=r.choice(ks)))
    return c


def tree_ops(r, n):
    p = lambda: r.choice([1.0, 1.0, 0.6, 0.0])
    c = [lambda: SubtreeMutation(probability=p(), init_depth=r.choice([(1, 2), (2, 3)])),
         lambda: ERCMutation(probability=p(), arity=1)] + common_ops(r, n)
    ks = [a for a in (2, 3) if n % a == 0]
    if ks:
        c += [lambda: SubtreeCrossover(probability=p(), arity=r.choice(ks))] * 2
    return c


def tree_eval(g, env):
    """my own interpreter of a genome key"""
    pos = [0]

    def go():
        x = g[pos[0]]
        pos[0] += 1
        if x[0] != "t":
            f = getattr(UF, x[0])
            n = {"f_neg": 1}.get(x[0], 2)
            return f(*[go() for _ in range(n)])
        return env[x[2]] if isinstance(x[2], str) else x[2]
    return go()


class Conf:
    pass


def random_conf(r, nsga=False, executor=None, big=False):
    c = Conf()
    c.nsga = nsga
    c.n = r.choice([1, 2, 3, 4, 4, 5, 6, 6, 8, 10, 12]) if not nsga else r.choice([2, 4, 6, 8])
    if big == "pop":
        c.n = r.choice([16, 20, 30, 32, 64, 100, 101, 129] if not nsga else [12, 20, 34, 64])
    c.hib = r.random() < .5
    c.track = r.random() < .5
    c.kind = r.choice(["bit", "int", "float", "tree"]) if not nsga else r.choice(["bit", "int", "float"])
    c.length = r.choice([1, 2, 3, 5, 8] if big != "long" else [30, 64, 101])
    c.bloat8 = r.choice([0, 0, 1, 3]) if c.kind == "tree" else 0
    selk = r.choice(["tour", "tour", "tour1", "tournr", "fp"]) if not nsga else "tour"
    c.selk = selk
    c.score = Score(r.randint(0, 10**6), r.choice([1, 2, 3, 9, 40, 1000]), 0 if selk == "fp" else r.choice([0, 2, 20]),
                    inf=0 if selk == "fp" or nsga else r.choice([0, 0, 0, 5, 11]), nonneg=selk == "fp", npf=r.random() < .3,
                    smooth=r.choice([0, 0, 1, 2]), objectives=r.choice([1, 2, 2, 3, 4]) if nsga else 0)
    if selk == "fp":
        c.bloat8 = 0
    elif c.kind == "tree" and r.random() < .6:          # few pure fitness values: size decides
        c.bloat8, c.score.m, c.score.inf, c.score.smooth = r.choice([1, 2, 8, 20]), r.choice([1, 1, 2]), 0, 0
    c.seed = r.choice([0, 1, 7, 12345, 2**31, 2**32 - 1, 2**32 - 2, r.randint(0, 2**32 - 1)])
    c.gseed = r.choice([None, None, None, 0, 2**32 - 1, r.randint(0, 2**32 - 1)])
    c.elitism = r.choice([0, 0, .1, .25, .34, .5, .75, 1.0]) if not nsga else 0
    c.maxgen = r.choice([0, 1, 2, 3, 3, 4, 5])
    if big == "pop":
        c.maxgen = r.choice([1, 2, 3])
    elif big == "gens":
        c.maxgen = r.choice([10, 11, 16, 25, 40])
    elif big == "marathon":      # new genomes all the time: the best is found at any time, and lost again
        c.n, c.maxgen, c.kind, c.length, c.bloat8, c.elitism = r.choice([2, 3, 4]), r.choice([105, 130, 150]), "int", 6, 0, 0
        c.score = Score(r.randint(0, 10**6), 10**6, 0, nonneg=selk == "fp")
        c.selk = selk if selk != "tournr" else "tour1"
    c.nsub = r.choice([1, 1, 2, 3])
    c.nstat = r.choice([0, 1, 1, 2])
    c.method = r.choice(["map", "submit"])
    c.workers = r.choice([1, 2, 4, None])
    c.executor = executor or "thread"
    c.supplied = r.random() < .3
    c.cached = r.random() < .4 and not nsga   # supplied individuals that keep their scores when cloned
    c.stale = r.random() < .4                 # supplied individuals that were evaluated before, by somebody else
    c.popkind = r.choice(["sub", "list", "pop"])
    c.nops = r.choice([0, 1, 1, 2, 2, 3])
    c.chk = r.choice([None, "one", "list", "list"])
    c.fires = [set(r.sample(range(0, 7), r.choice([0, 0, 1, 2]))) for _ in range(r.choice([1, 2, 3]))]
    if r.random() < .7:
        c.fires = [f - {0, 1} for f in c.fires]
    if big == "crowd":
        c.nsub, c.nstat, c.nops, c.chk = r.choice([4, 12, 40]), r.choice([3, 6, 11]), r.choice([5, 9, 12, 16]), r.choice(["list", "list", None])
        c.fires = [set(r.sample(range(2, 7), r.choice([0, 0, 0, 1]))) for _ in range(r.choice([4, 6, 9, 12]))]
    if big == "marathon":
        c.nops = max(1, c.nops)
    if big in ("gens", "marathon"):
        c.fires = [{x + c.maxgen - 3 for x in f} for f in c.fires]
    return c


def lowest_gene(ind, i):
    return (ind.bounds if isinstance(ind.bounds, tuple) else ind.bounds[i])[0]


def highest_gene(ind, i):
    return (ind.bounds if isinstance(ind.bounds, tuple) else ind.bounds[i])[1]


def make_creator(c, r):
    if c.kind == "tree":
        cls = r.choice([FullCreator, GrowCreator])
        return cls(init_depth=r.choice([(1, 2), (2, 3), (0, 2)]), function_set=[f_add, f_sub, f_neg, f_max],
                   terminal_set=["x", "y", 1, 2], erc_range=r.choice([None, (-1.0, 1.0), (-3, 3)]),
                   bloat_weight=c.bloat8 / 8, update_parents=c.track)
    kw = dict(length=c.length, update_parents=c.track)
    if c.nsga:
        from eckity.genetic_encodings.ga import BitStringVector, IntVector, FloatVector
        t, b = dict(bit=(BitStringVector, (0, 1)), int=(IntVector, r.choice([(-2, 2), (0, 100)])),
                    float=(FloatVector, (-4.0, 4.0)))[c.kind]
        return GAVectorCreator(vector_type=t, bounds=b, fitness_type=NSGA2Fitness, **kw)
    if c.kind == "bit":
        return GABitStringVectorCreator(**kw)
    if c.kind == "int":
        return GAIntVectorCreator(bounds=r.choice([(-2, 2), (0, 100)]), **kw)
    return GAFloatVectorCreator(bounds=(-4.0, 4.0), **kw)


def make_selection(c, r):
    if c.selk == "fp":
        return FitnessProportionateSelection(higher_is_better=c.hib)
    if c.selk == "tournr":
        return TournamentSelection(tournament_size=r.randint(1, c.n), higher_is_better=c.hib, replace=False)
    return TournamentSelection(tournament_size=1 if c.selk == "tour1" else r.choice([2, 3, 4]), higher_is_better=c.hib)


def make_ops(c, r):
    choices = tree_ops(r, c.n) if c.kind == "tree" else vec_ops(r, c.kind, c.n, c.length)
    return [r.choice(choices)() for _ in range(c.nops)]


def build(c, r, rec=None, evaluator=None):
    """an algorithm for configuration c; recorded when rec is given"""
    ev = evaluator or Evaluator(c.score)
    R = Recorder(rec, c.score) if rec else None
    creator, ops, sel = make_creator(c, r), make_ops(c, r), make_selection(c, r)
    inds = None
    if c.supplied:
        random.seed(r.randint(0, 10**9))
        np.random.seed(r.randint(0, 10**9))
        inds = creator.create_individuals(c.n, c.hib)
        if r.random() < .3:      # some keep their parents, some do not
            for i in inds:
                i.update_parents = r.random() < .5
                if i.update_parents:
                    i.parents = []
        for i in inds:
            i.fitness.cache = bool(c.cached and r.random() < .8)
            if c.stale and not c.nsga and r.random() < .8:
                i.fitness.set_fitness(r.choice([-1e9, 0.0, 1e9]))
    if rec:
        creator = R.wrap_creator(creator)
    elif getattr(c, "ncre", 1) > 1:
        creator = [creator] + [make_creator(c, r) for _ in range(c.ncre - 1)]
        for k in range(1, c.ncre):
            if hasattr(creator[k], "gene_creator") and r.random() < .7:
                creator[k].gene_creator = (lowest_gene, highest_gene)[k % 2]
    if rec:
        if not c.nsga:
            ops = [R.wrap_op(o) for o in ops]
            sel = R.wrap_sel(sel)
    sp = Subpopulation(ev, creators=creator, operators_sequence=ops, selection_methods=[(sel, 1)],
                       elitism_rate=c.elitism, population_size=c.n, individuals=inds, higher_is_better=c.hib)
    holder = {}
    sp = dict(sub=sp, list=[sp], pop=Population([sp]))[c.popkind]
    chk = None
    if c.chk and rec:
        chk = [Scripted(rec, R, i + 1, f, lambda: holder["a"]) for i, f in enumerate(c.fires)]
        if c.chk == "one":
            chk = chk[0]
    kw = dict(statistics=[RecStat(rec, i + 1) for i in range(c.nstat)] if rec else None,
              population_evaluator=SimplePopulationEvaluator(executor_method=c.method),
              max_generation=c.maxgen, termination_checker=chk, executor=c.executor, max_workers=c.workers,
              random_seed=c.seed, generation_seed=c.gseed)
    if rec:
        kw["random_generator"] = SeedRNG(rec)
    if c.nsga:
        from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
        alg = NSGA2Evolution(sp, breeder=NSGA2Breeder(), **kw)
    else:
        alg = SimpleEvolution(sp, breeder=SimpleBreeder(), **kw)
    holder["a"] = alg
    if rec:
        nchk = 0 if chk is None else (len(chk) if isinstance(chk, list) else 1)
        rec.ev("Cfg", n=c.n, nelite=round(c.elitism * c.n), hib=c.hib, maxgen=c.maxgen, w=c.bloat8,
               opnames=[type(o).__name__ for o in ops], arities=[o.arity for o in ops], sel=type(sel).__name__,
               nchk=nchk, nstat=c.nstat, nsub=c.nsub, track=c.track, supplied=c.supplied, nsga=c.nsga,
               seed=pair(c.seed), gseed=pair(c.seed if c.gseed is None else c.gseed), inproc=c.executor == "thread",
               tree=c.kind == "tree", given=[rec.uid(i) for i in inds] if inds else [],
               goal=0)
        R.attach(alg, c.nsub)
    return alg, R, ev
