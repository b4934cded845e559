"""Breeding several sub-populations, in steps and in runs with a user's own evaluator (C33)."""
from evolib import *
from eckity.genetic_encodings.ga import BitStringVector, IntVector
from eckity.fitness import SimpleFitness, GPFitness


class Sub:
    """a sub-population with its own rules, its operators and selections wrapped so that they tell"""

    def __init__(self, w, s, r, valid=True, tot=None):
        self.s, self.c = s, Conf()
        c = self.c
        c.kind, c.track, c.bloat8 = r.choice(["bit", "int", "float", "tree"]), r.random() < .3, r.choice([0, 0, 1])
        c.nsga = False
        c.length = r.choice([2, 3, 5])
        c.n = r.choice([1, 2, 3, 4, 6, 6, 9]) if r.random() < .97 else r.choice([34, 60])
        c.hib = r.random() < .5
        c.selk = r.choice(["tour", "tour1", "tournr", "fp"])
        if c.selk == "fp" or c.kind != "tree":
            c.bloat8 = 0
        c.elitism = r.choice([0, 0, .2, .34, .5, .75, 1.0])
        self.score = Score(r.randint(0, 10**6), r.choice([1, 2, 3, 9, 100]), 0 if c.selk == "fp" else r.choice([0, 5]), nonneg=c.selk == "fp")
        pool = tree_ops(r, c.n) if c.kind == "tree" else vec_ops(r, c.kind, c.n, c.length)
        ops = [r.choice(pool)() for _ in range(r.choice([0, 1, 1, 2, 3]))]
        if not valid:
            ops.insert(r.randint(0, len(ops)), Shuffle(probability=1, arity=c.n + 1 if r.random() < .3 else next(a for a in (2, 3, 4, 5, 7) if c.n % a)))
        self.ops = ops
        self.sels = [make_selection(c, r) for _ in range(r.choice([1, 1, 2]))]
        self.ev = Evaluator(self.score)
        self.sp = Subpopulation(self.ev, creators=make_creator(c, r), operators_sequence=list(ops), selection_methods=[(x, 1) for x in self.sels],
                                population_size=c.n, elitism_rate=c.elitism, higher_is_better=c.hib)
        for k, op in enumerate(ops):
            self.wrap_op(w, op, k + 1)
        for k, sel in enumerate(self.sels):
            self.wrap_sel(w, sel, k + 1)

    def wrap_op(self, w, op, k):
        s, cls = self.s, type(op)

        def apply_operator(self, inds):
            inds = list(inds)
            pre = [w.G(genome(i)) for i in inds]
            res = cls.apply_operator(self, inds)
            w.calls.append(dict(s=s, k=k, us=[w.rec.uid(i) for i in inds], cf=[i.cloned_from for i in inds], pre=pre, post=[w.G(genome(i)) for i in inds]))
            return res
        op.__class__ = type(cls.__name__, (cls,), dict(apply_operator=apply_operator))

    def wrap_sel(self, w, sel, k):
        s, cls = self.s, type(sel)

        def select(self, src, dest):
            n = len(dest)
            res = cls.select(self, src, dest)
            w.sels.append(dict(s=s, k=k, src=[w.rec.uid(i) for i in src], new=[w.rec.uid(i) for i in res[n:]]))
            return res
        sel.__class__ = type(cls.__name__, (cls,), dict(select=select))

    def cfg(self):
        sp = self.sp
        return dict(n=sp.population_size, e=sp.n_elite, hib=bool(sp.higher_is_better), ops=[self.ops.index(o) + 1 if any(o is x for x in self.ops) else 0 for o in sp.get_operators_sequence()],
                    ar=[o.arity for o in self.ops], sels=[next((k + 1 for k, x in enumerate(self.sels) if x is t[0]), 0) for t in sp.get_selection_methods()])


class World:
    def __init__(self, rec, nsub, valid=True):
        r = rec.rnd
        self.rec, self.G, self.calls, self.sels = rec, Interner(), [], []
        bad = None if valid else r.randrange(nsub)
        self.subs = [Sub(self, s + 1, r, valid=s != bad) for s in range(nsub)]
        self.bad = bad
        self.pop = Population([x.sp for x in self.subs])
        rec.ev("Cfg", subs=[dict(x.cfg(), n=x.c.n, e=round(x.c.elitism * x.c.n), hib=x.c.hib) for x in self.subs], bad=0 if bad is None else bad + 1)

    def evaluate(self):
        for x in self.subs:
            for i in x.sp.individuals:
                i.fitness.set_fitness(x.score(i))

    def snap(self):
        u = self.rec.uid
        return [[dict(u=u(i), id=i.id, g=self.G(genome(i)), a=enc(i.get_augmented_fitness()) if i.fitness.is_fitness_evaluated() else NONE, cf=i.cloned_from,
                      ops=list(i.applied_operators), gen=i.gen) for i in x.sp.individuals] for x in self.subs]

    def begin(self):
        self.calls.clear()
        self.sels.clear()
        self.lists = [(list(x.sp.individuals)) for x in self.subs]
        self.before = self.snap()
        self.state = self.old()

    def old(self):
        return [[(genome(i), i.id, tuple(i.applied_operators), tuple(i.selected_by), i.fitness.is_fitness_evaluated(), i.fitness.fitness) for i in l] for l in self.lists]

    def end(self, exc=""):
        self.rec.ev("Breed", before=self.before, after=self.snap(), calls=list(self.calls), sels=list(self.sels), cfg=[x.cfg() for x in self.subs],
                    same=self.old() == self.state, exc=exc)


def ep_steps(rec):
    r = rec.rnd
    w = World(rec, r.choice([1, 2, 2, 3, 4]) if r.random() < .9 else r.choice([5, 6, 7, 9]))
    w.pop.create_population_individuals()
    b = SimpleBreeder()
    for _ in range(r.choice([1, 2, 3])):
        w.evaluate()
        w.begin()
        _, exc = rec.guard("", r.choice([b.breed, b.act, b.apply_breed]), w.pop)
        w.end(exc)


def ep_refused(rec):
    r = rec.rnd
    w = World(rec, r.choice([1, 2, 3, 3, 7]), valid=False)
    w.pop.create_population_individuals()
    w.evaluate()
    w.begin()
    _, exc = rec.guard("", SimpleBreeder().breed, w.pop)
    rec.ev("Refused", exc=exc, before=w.before[w.bad], after=w.snap()[w.bad], same=w.old() == w.state)


class MultiEval(SimplePopulationEvaluator):
    """a user's evaluator of several sub-populations; the best of the last one is the result"""

    def __init__(self, w):
        super().__init__()
        self.w = w

    def _evaluate(self, population):
        self.w.evaluate()
        sp = population.sub_populations[-1]
        best = sp.individuals[0]
        for i in sp.individuals[1:]:
            if i.better_than(best):
                best = i
        return best


def ep_run(rec):
    r = rec.rnd
    w = World(rec, r.choice([2, 2, 3, 4]) if r.random() < .9 else r.choice([5, 7]))
    gens = r.choice([1, 2, 4])
    subs = [x.sp for x in w.subs]
    alg = SimpleEvolution(r.choice([subs, w.pop]), breeder=SimpleBreeder(), population_evaluator=MultiEval(w), max_generation=gens, executor="thread", max_workers=1,
                          random_seed=r.randint(0, 10**6), random_generator=RNG())
    alg.breeder.register("before_operator", lambda s, d: w.begin())
    alg.breeder.register("after_operator", lambda s, d: w.end())

    def after(s, d):
        g = d["generation_num"]
        rec.ev("Gen", g=g, gens=[[i.gen for i in x.sp.individuals] for x in w.subs], pops=[sp is x.sp for sp, x in zip(alg.population.sub_populations, w.subs)],
               worst=0 if alg.worst_of_gen is None else rec.uid(alg.worst_of_gen), pfirst=w.snap()[0], hib=w.subs[0].c.hib, plast=w.snap()[-1], lhib=w.subs[-1].c.hib,
               best=rec.uid(d["best_of_gen"]) if d["best_of_gen"] is not None else 0)
    alg.register("after_generation", after)
    _, exc = rec.guard("", alg.evolve)
    alg.executor.shutdown()
    rec.ev("End", exc=exc)


q = 8 if THOROUGH else 1
run([ep_steps] * (250 * q) + [ep_refused] * (60 * q) + [ep_run] * (80 * q))
