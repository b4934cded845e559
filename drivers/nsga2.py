"""NSGA-II: dominance, crowded comparison, survivor selection, alone and in runs (C18, C19)."""
from evolib import *
import itertools, copy
from eckity.genetic_encodings.ga import BitStringVector, IntVector
from eckity.fitness import SimpleFitness
from eckity.multi_objective_evolution.nsga2_front_sorting import NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder

L = 27720


def crow(c):
    c = float(c)
    if math.isinf(c):
        return INF if c > 0 else -INF
    x = c * L
    if math.isnan(x) or abs(x - round(x)) > 1e-3:
        return -777777777
    return int(round(x))


def ind_of(vals, hib):
    i = BitStringVector(NSGA2Fitness(higher_is_better=copy.copy(hib)), length=2, vector=[0, 1])
    if vals is not None:
        i.fitness.set_fitness(list(vals))
    return i


def rk(x):
    return INF if x == float("inf") else int(x)


def log_sel(rec, src, pre, dst, dirs, n, crowd=True, back=lambda k, v: v):
    pos = {id(x): k + 1 for k, x in enumerate(src)}
    post = [(genome(i), tuple(i.get_pure_fitness()), i.id) for i in src]
    rec.ev("Sel", P=[[int(round(back(k, v) * 8)) for k, v in enumerate(i.get_pure_fitness())] for i in src], dir=dirs, n=n,
           chosen=[pos.get(id(x), 9999) for x in dst], own=all(id(x) in pos for x in dst), same=pre == post,
           rk=[rk(i.fitness.front_rank) for i in src], cr=[crow(i.fitness.crowding) for i in src], crowd=crowd)


class FakeEval(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return 0


def ep_select(rec, pts=None, n=None):
    r = rec.rnd
    k = r.choice([1, 2, 2, 2, 3, r.choice([3, 4, 5, 6, 8])]) if pts is None else len(pts[0])
    hib = r.choice([True, False]) if r.random() < .5 else [r.random() < .5 for _ in range(k)]
    dirs = hib if isinstance(hib, list) else [hib] * k
    nsub = r.choice([1, 1, 2]) if pts is None else 1
    sps, srcs = [], []
    m = len(pts) if pts else r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12]) if r.random() < .95 else r.choice([20, 33, 41])
    # very small, very large and very close values of an objective are values like any others
    odd = r.random() < .3 if pts is None else 0
    scale = [2.0 ** r.choice([0, -40, -300, 300]) if odd else 1 for _ in range(k)]
    off = [r.choice([0, 0, 2.0 ** 40, -2.0 ** 30]) if odd else 0 for _ in range(k)]
    for _ in range(nsub):
        w = r.choice([1, 2, 3, 6, 12])
        ps = pts or [[r.randint(0, w) / 8 if r.random() < .95 else 0.0 for _ in range(k)] for _ in range(m)]
        if pts is None and m < 14 and r.random() < .3:     # one anti-chain: crowding decides everything
            ps = [[j / 8, (12 - j) / 8 if dirs[0] == dirs[-1] else j / 8] + [0.25] * (k - 2) for j in r.sample(range(13), m)] if k > 1 else ps
        same_ids = r.random() < .08      # copies made with copy.deepcopy
        inds = [ind_of([(v + o) * s for v, o, s in zip(p, off, scale)], hib) for p in ps]
        for j, i in enumerate(inds):
            i.set_vector([j % 2, (j // 2) % 2])
            if same_ids:
                i.id = inds[0].id
            if r.random() < .3:   # stale labels from an earlier generation
                i.fitness.front_rank, i.fitness.crowding = r.choice([1, 2, float("inf")]), r.choice([0, 5.0, float("inf")])
        sps.append(Subpopulation(FakeEval(), creators=GABitStringVectorCreator(length=2), operators_sequence=[], individuals=list(inds),
                                 population_size=len(inds)))
        srcs.append(inds)
    size = n
    if size is None:
        size = r.choice([None, r.randint(1, m), m])
    if size is None and m < 2:
        size = 1
    pres = [[(genome(i), tuple(i.get_pure_fitness()), i.id) for i in s] for s in srcs]
    pop = Population(sps)
    sorter = r.choice([NSGA2FrontSorting(), SHARED])
    sorter.select_for_population(pop, size)
    for s, p, sp in zip(srcs, pres, sps):
        log_sel(rec, s, p, sp.individuals, dirs, size or len(s) // 2, back=lambda k, v: v / scale[k] - off[k])


SHARED = NSGA2FrontSorting()     # the default sorter is one object shared by all algorithms


def make_sel(pts, n):
    return lambda rec: ep_select(rec, pts, n)


class Sorter(NSGA2FrontSorting):
    def __init__(self, rec, dirs):
        super().__init__()
        self.rec, self.dirs = rec, dirs

    def select_for_population(self, population, new_pop_size=None):
        srcs = [list(sp.individuals) for sp in population.sub_populations]
        pres = [[(genome(i), tuple(i.get_pure_fitness()), i.id) for i in s] for s in srcs]
        super().select_for_population(population, new_pop_size)
        for s, p, sp in zip(srcs, pres, population.sub_populations):
            log_sel(self.rec, s, p, sp.individuals, self.dirs, new_pop_size or len(s) // 2)


def ep_run(rec):
    r = rec.rnd
    k = r.choice([1, 2, 2, 3, 4])
    hib = r.choice([True, False]) if r.random() < .4 else [r.random() < .5 for _ in range(k)]
    dirs = hib if isinstance(hib, list) else [hib] * k
    score = Score(r.randint(0, 10**6), r.choice([2, 4, 9, 13]), 0, objectives=k)
    n = r.choice([2, 4, 6, 8]) if r.random() < .9 else r.choice([20, 34])
    length = r.choice([3, 6])
    cr = GAVectorCreator(vector_type=r.choice([BitStringVector]), bounds=(0, 1), length=length, fitness_type=NSGA2Fitness)
    ops = [VectorKPointsCrossover(k=1, probability=r.choice([1.0, .5])), BitStringVectorFlipMutation(probability=r.choice([1.0, .3]))]
    sp = Subpopulation(Evaluator(score), creators=cr, operators_sequence=ops[:r.choice([1, 2])] if n % 2 == 0 else ops[1:],
                       selection_methods=[(TournamentSelection(tournament_size=2), 1)], population_size=n, higher_is_better=hib)
    alg = NSGA2Evolution(sp, breeder=NSGA2Breeder(), population_evaluator=SimplePopulationEvaluator(), NSGA2FrontSorting=Sorter(rec, dirs),
                         max_generation=r.choice([2, 4, 6]), random_seed=r.randint(0, 1000), max_workers=1)

    def after(s, d):
        if alg.generation_num == 0:
            return
        inds = alg.population.sub_populations[0].individuals
        first = [i for i in inds if i.fitness.front_rank == 1]
        b = alg.best_of_run_
        ok = any(b is i for i in first) and len(first) > 0 and \
            sorted(id(i) for i in alg.best_of_gen[0]) == sorted(id(i) for i in first)
        rec.ev("Front", ok=ok)
    alg.register("after_generation", after)
    alg.evolve()


NAN = float("nan")


def dom_ev(rec, a, b, hib, f=lambda v: v):
    dirs = hib if isinstance(hib, (list, tuple)) else [hib] * len(a)
    x, y = ind_of([f(v) for v in a], hib), ind_of([f(v) for v in b], hib)
    ans, exc = rec.guard("", x.fitness.dominate, x, y.fitness, y)
    rec.ev("Dom", a=[enc(v) for v in a], b=[enc(v) for v in b], dir=list(dirs), ans=bool(ans), exc=exc, bad=False)


def make_dom(vals, hib, k):
    def ep(rec):
        for a in itertools.product(vals, repeat=k):
            for b in itertools.product(vals, repeat=k):
                dom_ev(rec, a, b, hib)
    return ep


def ep_dom(rec):
    r = rec.rnd
    for _ in range(60):
        k = r.choice([1, 2, 3, 5]) if r.random() < .7 else r.choice([4, 6, 7, 8, 12, 20])
        hib = r.choice([True, False, [r.random() < .5 for _ in range(k)]])
        vals = r.choice([[0.0, 1.0, -1.0], [0, .125, -.125, 5], [float("inf"), float("-inf"), 0.0], [np.float64(1), 1, 2]])
        a = [r.choice(vals) for _ in range(k)]
        b = [r.choice(vals) if r.random() < .5 else a[z] for z in range(k)]
        if r.random() < .4:      # almost the same
            b = list(a)
            for z in r.sample(range(k), min(k, r.choice([1, 2]))):
                b[z] = r.choice(vals)
        elif r.random() < .4:    # one better than the other nearly everywhere
            hi, lo = max(vals), min(vals)
            d = hib if isinstance(hib, list) else [hib] * k
            b = [lo if x else hi for x in d]
            a = [r.choice([v, v, hi if x else lo]) for v, x in zip(b, d)]
            if r.random() < .5:
                z = r.randrange(k)
                b[z] = hi if d[z] else lo
                a[z] = r.choice(vals)
        s, o = 2.0 ** r.choice([0, 0, 0, -40, -300, 300]), r.choice([0, 0, 0, 2.0 ** 40])
        dom_ev(rec, a, b, hib, lambda v: (v + o) * s if s != 1 or o else v)
    # errors
    for _ in range(20):
        a = [1.0, 2.0]
        x = ind_of(a, r.choice([True, [True, False]]))
        w = r.choice(["uneval", "kind", "len", "self"])
        if w == "uneval":
            y = ind_of(None, True)
        elif w == "kind":
            y = BitStringVector(SimpleFitness(fitness=1.0), length=2)
        elif w == "len":
            y = ind_of(r.choice([[1.0], [1.0, 2.0, 3.0]]), True)
        else:
            x, y = ind_of(None, True), ind_of(a, True)
        _, exc = rec.guard("", x.fitness.dominate, x, y.fitness, y)
        rec.ev("Dom", a=[0], b=[0], dir=[True], ans=False, exc=exc, bad=True)
        if w != "self":
            x.fitness.front_rank, x.fitness.crowding = r.choice([1, 2]), r.choice([0.0, 1.5, float("inf")])
            if hasattr(y.fitness, "front_rank"):
                y.fitness.front_rank = r.choice([1, 2, 3])
            _, exc = rec.guard("", r.choice([lambda: x.better_than(y), lambda: x.fitness.better_than(x, y.fitness, y)]))
            rec.ev("Cmp", r1=0, c1=0, r2=0, c2=0, ans=False, exc=exc, bad=True)


def ep_cmp(rec):
    r = rec.rnd
    for r1, r2 in itertools.product([1, 2, 3], repeat=2):
        for c1, c2 in itertools.product([0, 0.0, .125, 2.0, float("inf")], repeat=2):
            x, y = ind_of([1.0, 2.0], False), ind_of([r.choice([1.0, 0.0]), 3.0], False)
            x.fitness.front_rank, x.fitness.crowding, y.fitness.front_rank, y.fitness.crowding = r1, c1, r2, c2
            ans, exc = rec.guard("", x.better_than, y)
            rec.ev("Cmp", r1=r1, c1=enc(c1), r2=r2, c2=enc(c2), ans=bool(ans), exc=exc, bad=False)
            ans, exc = rec.guard("", x.fitness.equal_to, x, y.fitness, y)
            rec.ev("Equal", r1=r1, c1=enc(c1), r2=r2, c2=enc(c2), ans=bool(ans), exc=exc)


def main():
    q = 12 if THOROUGH else 1
    if PROP == "C19":
        eps = [make_dom([0.0, 1.0, 2.0], h, 2) for h in (True, False, [True, True], [True, False], [False, True], [False, False])]
        eps += [make_dom([0.0, 1.0], list(h), 3) for h in itertools.product([True, False], repeat=3)]
        eps += [ep_dom] * (60 * q) + [ep_cmp] * 4
    else:
        eps = [ep_select] * (500 * q) + [ep_run] * (40 * q)
        # all populations of 4 points of a 3x3 grid (up to order), all numbers of survivors
        grid = [[a / 8, b / 8] for a in range(3) for b in range(3)]
        for pts in itertools.combinations_with_replacement(grid, 5 if THOROUGH else 4):
            eps.append(make_sel(list(pts), None))
            if THOROUGH:
                eps += [make_sel(list(pts), n) for n in (1, 2, 3, 4)]
    run(eps)


main()
