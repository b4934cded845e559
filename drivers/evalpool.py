"""Schedules enumerated by EvalPool.tla replayed into the real population evaluator (C04)."""
from evolib import *
import time as _t
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
from eckity.genetic_encodings.ga import IntVector
from eckity.fitness.simple_fitness import SimpleFitness
from eckity.fitness.gp_fitness import GPFitness


class Boom(Exception):
    pass


class Boom2(KeyError):
    pass


class GatedEval(SimpleIndividualEvaluator):
    """evaluations announce their start and wait for permission to finish"""

    def __init__(self, n):
        super().__init__()
        self.cv = threading.Condition()
        self.started, self.allowed, self.finished, self.open = [], set(), [], False
        self.failing, self.exc = set(), Boom

    def evaluate_individual(self, ind):
        w = ind.vector[0]
        with self.cv:
            self.started.append(w)
            self.cv.notify_all()
            self.cv.wait_for(lambda: self.open or w in self.allowed, timeout=20)
        try:
            if w in self.failing:
                raise self.exc(str(w))
            return ind.vector[1] / 8
        finally:
            with self.cv:
                self.finished.append(w)
                self.cv.notify_all()


def controller(ev, hist):
    """best effort: make the evaluations start and finish as in the model's behaviour"""
    for x in hist:
        with ev.cv:
            if x > 0:
                if not ev.cv.wait_for(lambda: x in ev.started, timeout=.5):
                    break
            else:
                ev.allowed.add(-x)
                ev.cv.notify_all()
                if not ev.cv.wait_for(lambda: -x in ev.finished, timeout=.5):
                    break
        if x < 0:
            _t.sleep(.0005)
    with ev.cv:
        ev.open = True
        ev.cv.notify_all()


def pop_of(ev, n, hib, r):
    inds = []
    w8 = r.choice([0, 0, 1, 8, 40])   # the size counts when the best is sought
    for i in range(1, n + 1):
        cache = r.random() < .4
        fit = GPFitness(higher_is_better=hib, cache=cache, bloat_weight=w8 / 8) if w8 else SimpleFitness(higher_is_better=hib, cache=cache)
        v = IntVector(fit, 2, bounds=(-10**6, 10**6))
        v.set_vector([i, r.randint(-20, 20)] + [0] * (r.choice([0, 0, 1, 2, 5]) if w8 else 0))
        inds.append(v)
    if r.random() < .25:        # copies of one another have the same id, and so can individuals from other processes
        same = r.sample(inds, r.randint(1, n))
        for v in same:
            v.id = same[0].id
    sp = Subpopulation(ev, creators=GAIntVectorCreator(length=2), individuals=inds, population_size=n, higher_is_better=hib,
                       operators_sequence=[], selection_methods=[(TournamentSelection(tournament_size=2), 1)])
    return Population([sp]), inds


def evaluate(rec, pe, pop, inds, hib, failing, calls, counted, n, w, exc_t):
    before = [(i.id, tuple(i.vector)) for i in inds]
    best, exc, who = None, "", 0
    try:
        best = pe.act(pop)
    except Exception as ex:
        exc, who = type(ex).__name__, -1
        if isinstance(ex, exc_t):
            try:
                who = int(ex.args[0])
            except Exception:
                who = -1
    rec.ev("Result", n=n, w=w, hib=hib, failing=sorted(failing), exc=exc, who=who,
           fits=[enc(i.fitness.get_pure_fitness()) if i.fitness.is_fitness_evaluated() else NONE for i in inds],
           scores=[enc(i.vector[1] / 8) for i in inds], w8=int(8 * getattr(inds[0].fitness, "bloat_weight", 0)), sizes=[len(i.vector) for i in inds], counted=counted, calls=calls(),
           best=next((k for k, i in enumerate(inds, 1) if i is best), 0),
           frame=before == [(i.id, tuple(i.vector)) for i in inds] and pop.sub_populations[0].individuals == inds
           and all(a is b for a, b in zip(pop.sub_populations[0].individuals, inds)))


def ep_gated(case, method, rounds=1):
    def ep(rec):
        r = rec.rnd
        n, w = case["n"], case["w"]
        hib = r.random() < .5
        ev = GatedEval(n)
        pop, inds = pop_of(ev, n, hib, r)
        pe = SimplePopulationEvaluator(executor_method=method)
        ex = ThreadPoolExecutor(w)
        pe.set_executor(ex)
        rec.ev("Pool", kind="thread", method=method)
        for k in range(rounds):
            failing = set(case["failing"]) if k == rounds - 1 else set()
            ev.exc = r.choice([Boom, Boom2])
            ev.started, ev.finished, ev.allowed, ev.open, ev.failing = [], [], set(), False, failing
            t = threading.Thread(target=controller, args=(ev, case["hist"]), daemon=True)
            t.start()
            evaluate(rec, pe, pop, inds, hib, failing, lambda: list(ev.started), True, n, w, ev.exc)
            with ev.cv:
                ev.open = True
                ev.cv.notify_all()
            t.join()
            for i in inds:       # new genomes for the next round
                i.set_vector([i.vector[0], r.randint(-20, 20)] + i.vector[2:])
                if r.random() < .5:
                    i.set_fitness_not_evaluated()
        ex.shutdown()
    return ep


class DelayEval(SimpleIndividualEvaluator):
    """for other processes: the delay makes the evaluations finish in the wanted order"""

    def __init__(self, delay, failing, unit):
        super().__init__()
        self.delay, self.failing, self.unit = delay, failing, unit

    def evaluate_individual(self, ind):
        w = ind.vector[0]
        _t.sleep(self.delay.get(w, 0) * self.unit)
        if w in self.failing:
            raise Boom(str(w))
        return ind.vector[1] / 8


def ep_delay(kind):
    def ep(rec):
        r = rec.rnd
        n, w = r.choice([1, 2, 3, 5, 8, 17, 40]), r.choice([1, 2, 3, 8])
        hib = r.random() < .5
        order = r.sample(range(1, n + 1), n)
        method = r.choice(["map", "submit"])
        failing = set() if r.random() < .6 else set(r.sample(range(1, n + 1), r.choice([1, 1, min(2, n), n])))
        ev = DelayEval({x: k for k, x in enumerate(order)}, failing, .008 if n < 10 else .001)
        pop, inds = pop_of(ev, n, hib, r)
        pe = SimplePopulationEvaluator(executor_method=method)
        ex = (ThreadPoolExecutor if kind == "thread" else ProcessPoolExecutor)(w)
        pe.set_executor(ex)
        rec.ev("Pool", kind=kind, method=method)
        for k in range(r.choice([1, 2])):
            evaluate(rec, pe, pop, inds, hib, failing, list, False, n, w, Boom)
            for i in inds:
                i.set_vector([i.vector[0], r.randint(-20, 20)] + i.vector[2:])
                i.set_fitness_not_evaluated()
        ex.shutdown()
    return ep


class CountEval(SimpleIndividualEvaluator):
    def __init__(self, failing):
        super().__init__()
        self.failing, self.calls, self.lock = failing, [], threading.Lock()

    def evaluate_individual(self, ind):
        w = ind.vector[0]
        with self.lock:
            self.calls.append(w)
        if w in self.failing:
            raise Boom(str(w))
        return ind.vector[1] / 8


def ep_large(kind):
    """populations around round and binary numbers"""
    def ep(rec):
        r = rec.rnd
        n = r.choice([20, 50, 100, 128, 200, 250, 256, 500, 512, 1000, 1024][: 11 if kind == "thread" else 9]) + r.choice([-1, 0, 1, 1, 7])
        hib, w, method = r.random() < .5, r.choice([1, 2, 8]), r.choice(["map", "submit"])
        failing = set() if r.random() < .8 else {r.choice([1, n, r.randint(1, n)])}
        ev = CountEval(failing) if kind == "thread" else DelayEval({}, failing, 0)
        pop, inds = pop_of(ev, n, hib, r)
        if r.random() < .5:         # the best one is in a place of its own
            k = r.choice([0, n - 1, r.randrange(n)])
            inds[k].set_vector([inds[k].vector[0], 900 if hib else -900] + inds[k].vector[2:])
        pe = SimplePopulationEvaluator(executor_method=method)
        ex = (ThreadPoolExecutor if kind == "thread" else ProcessPoolExecutor)(w)
        pe.set_executor(ex)
        rec.ev("Pool", kind=kind, method=method)
        for _ in range(1 if failing else 2):     # after a failure other evaluations may still be running
            if kind == "thread":
                ev.calls = []
            evaluate(rec, pe, pop, inds, hib, failing, lambda: list(ev.calls) if kind == "thread" else [], kind == "thread", n, w, Boom)
            for i in inds:
                i.set_vector([i.vector[0], r.randint(-20, 20)] + i.vector[2:])
                if r.random() < .5:
                    i.set_fitness_not_evaluated()
        ex.shutdown()
    return ep


class NestedEval(CountEval):
    """every evaluation evaluates another population on its way"""

    def __init__(self, how, r):
        super().__init__(set())
        self.how, self.salt, self.bad = how, r.randint(0, 99), []

    def evaluate_individual(self, ind):
        rr = random.Random(self.salt * 1000 + ind.vector[0])
        inner = CountEval(set())
        pop, inds = pop_of(inner, rr.choice([1, 2, 5]), rr.random() < .5, rr)
        if self.how == "run":
            sp = Subpopulation(inner, creators=GAIntVectorCreator(length=2, bounds=(0, 9)), population_size=4, operators_sequence=[],
                               selection_methods=[(TournamentSelection(tournament_size=2), 1)])
            alg = SimpleEvolution(sp, statistics=[], max_generation=1, executor="thread", max_workers=1, random_seed=1)
            alg.evolve()
            pop, inds = alg.population, alg.population.sub_populations[0].individuals
        else:
            pe = SimplePopulationEvaluator(executor_method=self.how)
            with ThreadPoolExecutor(1) as ex:
                pe.set_executor(ex)
                pe.act(pop)
        if any(i.fitness.get_pure_fitness() != i.vector[1] / 8 for i in inds):
            self.bad.append(ind.vector[0])
        return super().evaluate_individual(ind)


def ep_nested(rec):
    """an evaluation that evaluates other individuals, or runs another evolution"""
    r = rec.rnd
    n, hib, w, method = r.choice([1, 2, 3, 6, 12]), r.random() < .5, r.choice([1, 2, 4]), r.choice(["map", "submit"])
    ev = NestedEval(r.choice(["map", "submit", "run"]), r)
    pop, inds = pop_of(ev, n, hib, r)
    pe = SimplePopulationEvaluator(executor_method=method)
    rec.ev("Pool", kind="thread", method=method)
    with ThreadPoolExecutor(w) as ex:
        pe.set_executor(ex)
        for _ in range(r.choice([1, 2])):
            ev.calls = []
            evaluate(rec, pe, pop, inds, hib, set(), lambda: list(ev.calls), True, n, w, Boom)
            for i in inds:
                i.set_vector([i.vector[0], r.randint(-20, 20)] + i.vector[2:])
                i.set_fitness_not_evaluated()
    rec.ev("Nested", bad=ev.bad)


class LateFail(SimpleIndividualEvaluator):
    def __init__(self, at):
        super().__init__()
        self.n, self.at, self.lock = 0, at, threading.Lock()

    def evaluate_individual(self, ind):
        with self.lock:
            self.n += 1
            if self.n == self.at:
                raise Boom(str(self.at))
        return float(sum(ind.vector))


def ep_run_fails(rec):
    """an evaluation failing somewhere in a whole run: evolve raises it"""
    r = rec.rnd
    n, gens = r.choice([1, 2, 4, 6]), r.choice([0, 1, 3])
    at = r.randint(1, n * (gens + 1) + 2)
    ev = LateFail(at)
    rec.ev("Pool", kind="thread", method="run")
    sp = Subpopulation(ev, creators=GABitStringVectorCreator(length=4), population_size=n, elitism_rate=0,
                       operators_sequence=[BitStringVectorFlipMutation(probability=1)],
                       selection_methods=[(TournamentSelection(tournament_size=2), 1)])
    alg = SimpleEvolution(sp, statistics=[], max_generation=gens, executor="thread", max_workers=r.choice([1, 3]),
                          random_seed=r.randint(0, 10**6),
                          population_evaluator=SimplePopulationEvaluator(executor_method=r.choice(["map", "submit"])))
    done = []
    alg.register("evolution_finished", lambda s, d: done.append(1))
    exc = ""
    try:
        alg.evolve()
    except Exception as ex:
        exc = type(ex).__name__
    rec.ev("RunFails", due=at <= n * (gens + 1), exc=exc, finished=len(done), evals=ev.n, want=n * (gens + 1))
    alg.executor.shutdown()


class OneEval(SimpleIndividualEvaluator):
    def __init__(self):
        super().__init__()
        self.calls = []

    def evaluate_individual(self, ind):
        self.calls.append(ind.vector[0])
        return ind.vector[1] / 8


def ep_single(rec):
    """the individual evaluator used on its own, directly or as an operator"""
    r = rec.rnd
    hib, ev = r.random() < .5, OneEval()
    pop, inds = pop_of(ev, r.choice([1, 2, 4]), hib, r)
    rec.ev("Pool", kind="none", method="single")
    fit = lambda: [enc(i.fitness.get_pure_fitness()) if i.fitness.is_fitness_evaluated() else NONE for i in inds]
    for _ in range(r.randint(1, 6)):
        k = r.randrange(len(inds))
        if r.random() < .5:
            inds[k].set_cell_value(1, r.randint(-20, 20))
        if r.random() < .3:
            inds[k].set_fitness_not_evaluated()
        before, ev.calls = fit(), []
        env = r.choice([None, [], inds])
        got = ev.evaluate(inds[k], env) if r.random() < .6 else ev.apply_operator((inds[k], env))
        rec.ev("Single", i=k + 1, before=before, fits=fit(), score=enc(inds[k].vector[1] / 8), ret=got is inds[k], calls=len(ev.calls))


class Slow(SimpleIndividualEvaluator):
    """some evaluations take their time"""

    def __init__(self, slow, t):
        super().__init__()
        self.slow, self.t = slow, t

    def evaluate_individual(self, ind):
        import time as _t
        if ind.vector[0] in self.slow:
            _t.sleep(self.t)
        return ind.vector[1] / 8


def make_slow(method, t):
    def ep(rec):
        r = rec.rnd
        n, hib = r.choice([1, 3]), r.random() < .5
        pop, inds = pop_of(Slow({1}, t), n, hib, r)
        pe = SimplePopulationEvaluator(executor_method=method)
        ex = ThreadPoolExecutor(2)
        pe.set_executor(ex)
        rec.ev("Pool", kind="thread", method=method)
        evaluate(rec, pe, pop, inds, hib, set(), list, False, n, 2, Boom)
        ex.shutdown()
    return ep


def main():
    cases = json.load(open(OPT["cases"]))
    eps = [ep_gated(c, m) for c in cases for m in ("map", "submit")]
    r = random.Random(5)
    eps += [ep_gated(r.choice(cases), r.choice(["map", "submit"]), rounds=r.choice([2, 3])) for _ in range(100)]
    q = 6 if THOROUGH else 1
    eps += [ep_delay("thread")] * (80 * q) + [ep_delay("process")] * (24 * q) + [ep_large("thread")] * (30 * q) + [ep_large("process")] * (4 * q) + [ep_run_fails] * (150 * q) + [ep_single] * (60 * q) + [ep_nested] * (40 * q)
    eps += [make_slow(m, 40 if THOROUGH else 6) for m in ("map", "submit")]
    run(eps)


main()
