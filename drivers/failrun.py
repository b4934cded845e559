"""Runs in which code of the user raises (C37)."""
from evolib import *
from eckity.fitness import SimpleFitness
import contextlib, io
from sklearn.exceptions import NotFittedError
from eckity.sklearn_compatible.sk_classifier import SKClassifier
from eckity.sklearn_compatible.sk_regressor import SKRegressor


class Boom(Exception):
    pass


class Halt(BaseException):
    pass


ERRORS = [Boom, Boom, ValueError, KeyError, IndexError, AttributeError, TypeError, RuntimeError, ZeroDivisionError, AssertionError,
          OverflowError, TimeoutError, NotFittedError, NotImplementedError, OSError, MemoryError, FloatingPointError, Halt]


# what is called, where it is not the site of the run itself; fit: a comparison, wherever the run is
SITE = dict(gene="create", made="create", value="op", attempt="op", onfail="op", subop="op")


class Fuse:
    """counts the calls of the user's code; one of them fails"""

    def __init__(self, rec=None, at=None, error=None):
        self.rec, self.at, self.error, self.lock = rec, at, error, threading.Lock()
        self.n, self.eval_n, self.sites, self.show, self.off, self.last = 0, 0, [], lambda: 0, False, "create"

    def hit(self, label, score=None):
        with self.lock:
            if self.off:
                return
            site = self.last = self.last if label == "fit" else SITE.get(label, label)
            # evaluations run side by side: which of them fails is not the same in each run, their number is
            self.n += 1
            self.sites.append(label)
            fails = self.at == self.n
            if self.rec:
                kw = {}
                if site == "eval":
                    kw["v"] = Num(score)
                if site in ("init", "check", "stat", "after"):
                    kw["pop"] = self.show()
                if label == "fit" and site == "eval":
                    site = "func"
                self.rec.ev("Site", site=site, **kw)
                if fails:
                    self.rec.ev("Fail", site=site)
        if fails:
            raise self.error


class FuseEval(Evaluator):
    fuse, sign, run = None, 1, True

    def evaluate_individual(self, ind):
        v = self.score(ind)
        if self.run and hasattr(ind, "tree"):
            ind.execute(x=1.0, y=2.0)
        self.fuse.hit("eval", self.sign * float(v) if not isinstance(v, list) else 0)
        return v

    def set_context(self, c):
        pass


class ProcEval(SimpleIndividualEvaluator):
    """in another process: fails for some genomes"""

    def __init__(self, score, bad, error):
        super().__init__()
        self.score, self.bad, self.error = score, bad, error

    def fails(self, ind):
        return zlib.crc32(repr(genome(ind)).encode()) % self.bad == 0

    def evaluate_individual(self, ind):
        if self.fails(ind):
            raise self.error
        return self.score(ind)


class FuseRNG(RNG):
    def __init__(self, fuse):
        super().__init__()
        self.fuse = fuse

    def set_seed(self, seed):
        self.fuse.hit("seed")
        super().set_seed(seed)


class FuseCheck(TerminationChecker):
    def __init__(self, fuse, fire):
        super().__init__()
        self.fuse, self.fire = fuse, fire

    def should_terminate(self, population, best_individual, gen_number):
        self.fuse.hit("check")
        return gen_number in self.fire


class FuseStat(Statistics):
    def __init__(self, fuse):
        super().__init__("")
        self.fuse = fuse

    def write_statistics(self, sender, data):
        self.fuse.hit("stat")


def around(obj, fuse, site, *names):
    """the methods hit the fuse when they are entered and when they are left"""
    cls, d = type(obj), {}
    for name in names:
        if hasattr(cls, name):
            def wrap(self, *a, _f=getattr(cls, name), **k):
                fuse.hit(site)
                r = _f(self, *a, **k)
                fuse.hit(site)
                return r
            d[name] = wrap
    obj.__class__ = type(cls.__name__, (cls,), d)
    return obj


def cell(x):
    return type(x).__name__, repr(x)


def face(i):
    """what an individual holds, but the generation it is in"""
    f = i.fitness
    v = f.get_pure_fitness() if f.is_fitness_evaluated() else None
    return (i.id, [cell(x) for x in i.vector] if hasattr(i, "vector") else [repr(x) for x in genome(i)],
            list(i.applied_operators), list(i.selected_by), i.cloned_from, list(i.parents) if i.update_parents else None,
            None if v is None else [repr(float(x)) for x in np.ravel(v)])


def make(c, s, fuse, rec):
    """the same algorithm each time"""
    r = random.Random(s)
    ev = FuseEval(c.score)
    ev.fuse, ev.sign = fuse, 1 if c.hib else -1
    cr = make_creator(c, r)
    if hasattr(cr, "gene_creator"):
        def gene(ind, i, _g=cr.gene_creator):
            fuse.hit("gene")
            return _g(ind, i)
        cr.gene_creator = gene
        if not c.nsga:
            class FuseFitness(SimpleFitness):
                def better_than(self, ind, other_fitness, other_ind):
                    fuse.hit("fit")
                    return super().better_than(ind, other_fitness, other_ind)
            cr.fitness_type = FuseFitness
    elif hasattr(cr, "function_set"):
        def f_mine(x, y):
            fuse.hit("func")
            return x - y
        cr.function_set = cr.function_set + [f_mine]
    cr = around(cr, fuse, "create", "create_individuals")
    ops = []
    for o in make_ops(c, r):
        if hasattr(o, "mut_val_getter"):
            def val(*a, _f=o.mut_val_getter):
                fuse.hit("value")
                return _f(*a)
            o.mut_val_getter = val
        o = around(around(around(o, fuse, "op", "apply"), fuse, "attempt", "attempt_operator"), fuse, "onfail", "on_fail")
        for e in ("before_operator", "after_operator"):
            if r.random() < .3:
                o.register(e, lambda snd, d: fuse.hit("op"))
        ops.append(o)
    sel = around(make_selection(c, r), fuse, "select", "select", "_pick_tournament")
    inds = None
    if c.supplied:
        off, fuse.off = fuse.off, True
        random.seed(s), np.random.seed(s % 2**32)
        inds = cr.create_individuals(c.n, c.hib)
        fuse.off = off
    sp = Subpopulation(ev, creators=cr, operators_sequence=ops, selection_methods=[(sel, 1)], elitism_rate=c.elitism,
                       population_size=c.n, individuals=inds, higher_is_better=c.hib)
    chk = [FuseCheck(fuse, f) for f in c.fires] if c.chk else None
    if c.chk == "one":
        chk = chk[0]
    kw = dict(statistics=[FuseStat(fuse) for _ in range(c.nstat)], population_evaluator=SimplePopulationEvaluator(executor_method=c.method),
              max_generation=c.maxgen, termination_checker=chk, executor="thread", max_workers=c.workers, random_seed=c.seed,
              generation_seed=c.gseed, random_generator=FuseRNG(fuse))
    if c.nsga:
        from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
        alg = NSGA2Evolution(sp, breeder=NSGA2Breeder(), **kw)
    else:
        alg = SimpleEvolution(sp, breeder=SimpleBreeder(), **kw)
    I = Interner()
    fuse.show = lambda: I(repr([(rec.uid(i), face(i)) for i in alg.population.sub_populations[0].individuals]))
    for obj, e, site in [(alg.population_evaluator, "before_operator", "evalB"), (alg.population_evaluator, "after_operator", "evalA"),
                         (alg.breeder, "before_operator", "breedB"), (alg.breeder, "after_operator", "breedA"),
                         (alg, "init", "init"), (alg, "after_generation", "after"), (alg, "evolution_finished", "fin")]:
        n = 1 if obj is not alg else r.choice([1, 1, 2, 3])
        for _ in range(n):
            obj.register(e, lambda snd, d, site=site: fuse.hit(site))
    return alg, ev


def episode(rec, label=None, error=None, form=None):
    r = rec.rnd
    c = random_conf(r, nsga=label is None and r.random() < .12)
    c.maxgen = r.choice([0, 1, 2, 3, 3, 5])
    c.bloat8, c.cached = 0, False
    if c.selk == "tournr":
        c.selk = "tour"
    if r.random() < .5:      # the best is found late
        c.score.m, c.score.smooth = 1000, r.choice([0, 1])
    if c.selk == "fp":
        c.score.smooth = 0
    c.nops = max(1, c.nops) if r.random() < .7 else c.nops
    if c.hib is not None and r.random() < .8:
        c.fires = [f - {0, 1, 2} for f in c.fires]
    if r.random() < .6:
        c.chk = c.chk or "one"
    s = r.randint(0, 10**9)
    if label:          # a small run that has this site
        c.n, c.maxgen, c.nops, c.nstat, c.supplied, c.chk = 4, r.choice([1, 2]), 3, 1, False, c.chk or "one"
        c.kind = dict(func="tree").get(label, r.choice(["int", "float"]))
        c.method, c.chk = (form, form) if form in ("map", "submit") else (c.method, form or c.chk)
        c.chk = "one" if c.chk in ("map", "submit") else c.chk
        c.score.smooth = 0
    error = (error or r.choice(ERRORS))("no such thing")

    def go(fuse, recd):
        alg, ev = make(c, s, fuse, recd)
        sk = None
        if c.sk:
            sk = SKRegressor(alg) if c.sk == 1 else SKClassifier(alg)
        got = None
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                sk.fit(np.array([[1.0, 2.0], [3.0, 4.0]]), np.array([0, 1])) if sk else alg.evolve()
        except (Exception, Halt) as ex:
            if ex is not fuse.error and isinstance(ex, EpisodeTimeout):
                raise
            got = ex
        return alg, sk, got
    c.sk = 0 if c.nsga else r.choice([0, 0, 0, 1, 2])
    dry = Fuse()
    alg, _, got = go(dry, Rec(0, r))
    if got is not None:
        raise got
    alg.executor.shutdown(wait=True)
    if label and label not in dry.sites:
        return episode(rec, label, type(error), form)
    # any site of the run, the rare ones as often as the frequent ones
    kind = label or r.choice(sorted(set(dry.sites)))
    at = r.choice([k + 1 for k, x in enumerate(dry.sites) if x == kind]) if label or r.random() < .97 else None
    fuse = Fuse(rec, at, error)
    rec.ev("Cfg", kind=kind, at=at or 0, error=type(error).__name__, conf=c.kind, nsga=c.nsga, sk=c.sk)
    alg, sk, got = go(fuse, rec)
    best = alg.best_of_run_
    sign = 1 if c.hib else -1

    def fit(i):
        f = i.fitness
        return Num(sign * float(f.get_pure_fitness())) if f.is_fitness_evaluated() else Num(float("nan"))
    kw = dict(best=-1, truth=-1)
    if best is not None and not c.nsga:
        kw = dict(best=fit(best), truth=Num(sign * float(c.score(best))))
    fitted = True
    if sk is not None:
        fitted = hasattr(sk, "is_fitted_")
        if got is not None:
            try:
                sk.predict(np.array([[1.0, 2.0]]))
                fitted = True
            except NotFittedError:
                pass
            except Exception:
                fitted = True
    rec.ev("End", raised=got is not None, same=got is error, got=type(got).__name__, gen=alg.generation_num, final=alg.final_generation_ or 0,
           nsga=c.nsga, sk=bool(c.sk), fitted=fitted, pop=fuse.show() if alg.population.sub_populations[0].individuals else 0, **kw)
    alg.executor.shutdown(wait=True)


def ep_process(rec):
    """the evaluator raises in a worker process: the exception arrives as a copy"""
    r = rec.rnd
    c = random_conf(r, executor="process")
    c.bloat8, c.cached, c.supplied, c.maxgen, c.n = 0, False, False, r.choice([1, 3]), r.choice([2, 4, 6])
    c.selk = "tour"
    error = r.choice([x for x in ERRORS if x is not Halt])("no such thing", 7)
    ev = ProcEval(c.score, r.choice([3, 7, 30]), error)
    alg, _, _ = build(c, r, evaluator=ev)
    alg.termination_checker = None
    sign, sub = 1 if c.hib else -1, alg.population.sub_populations[0]
    I = Interner()
    show = lambda: I(repr([(rec.uid(i), face(i)) for i in sub.individuals]))
    rec.ev("Cfg", kind="process", at=0, error=type(error).__name__, conf=c.kind, nsga=False, sk=0)
    rec.ev("Site", site="seed")

    def batch(snd, d):
        rec.ev("Site", site="evalB")
        for i in sub.individuals:
            if ev.fails(i):
                rec.ev("Site", site="func")
                rec.ev("Fail", site="func")
                return
            rec.ev("Site", site="eval", v=Num(sign * float(c.score(i))))
    alg.population_evaluator.register("before_operator", batch)
    for obj, e, site in [(alg.population_evaluator, "after_operator", "evalA"), (alg.breeder, "before_operator", "breedB"), (alg.breeder, "after_operator", "breedA"),
                         (alg, "init", "init"), (alg, "after_generation", "after"), (alg, "evolution_finished", "fin")]:
        obj.register(e, lambda snd, d, site=site: rec.ev("Site", site=site, **(dict(pop=show()) if site in ("init", "after") else {})))
    got = None
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            alg.evolve()
    except Exception as ex:
        got = ex
    b = alg.best_of_run_
    fit = lambda i: Num(sign * float(i.fitness.get_pure_fitness())) if i.fitness.is_fitness_evaluated() else Num(float("nan"))
    rec.ev("End", raised=got is not None, same=type(got) is type(error) and got.args == error.args, got=type(got).__name__, gen=alg.generation_num,
           final=alg.final_generation_ or 0, nsga=False, sk=False, fitted=True, pop=show(),
           best=-1 if b is None else fit(b), truth=-1 if b is None else Num(sign * float(c.score(b))))
    alg.executor.shutdown(wait=True)


FORMS = dict(eval=["map", "submit"], func=["map", "submit"], check=["one", "list"])
LABELS = ["seed", "create", "gene", "fit", "evalB", "eval", "func", "evalA", "init", "check", "stat", "after", "breedB", "select", "op", "attempt", "onfail",
          "value", "breedA", "fin"]
SMALL = [lambda rec, a=a: episode(rec, *a) for k in LABELS for f in FORMS.get(k, [None]) for x in sorted(set(ERRORS), key=lambda x: x.__name__) for a in [(k, x, f)]]
run([episode] * (600 if not THOROUGH else 9000) + SMALL * (2 if not THOROUGH else 10) + [ep_process] * (8 if not THOROUGH else 60))
