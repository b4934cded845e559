"""The built-in termination checkers on fitness histories (C07)."""
from evolib import *
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
from eckity.termination_checkers.best_fitness_stagnation_termination_checker import BestFitnessStagnationTerminationChecker
from eckity.multi_objective_evolution.crowding_termination_checker import CrowdingTerminationChecker
from eckity.genetic_encodings.ga import BitStringVector
from eckity.fitness import SimpleFitness, GPFitness
import itertools


def dec(v):
    return float("inf") if v >= INF else float("-inf") if v <= -INF else v / 8


def ind_of(f8, hib, w8=0, sz=1, unit=1):
    fit = GPFitness(higher_is_better=hib, bloat_weight=w8 / 8 * unit) if w8 else SimpleFitness(higher_is_better=hib)
    i = BitStringVector(fit, length=sz, vector=[0] * sz)
    i.fitness.set_fitness(dec(f8) * unit)
    return i


def aug(f8, w8, sz, hib):
    if abs(f8) >= INF:
        return f8
    return f8 - w8 * sz if hib else f8 + w8 * sz


class FakeEval(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return 0


def make_pop(r, best8, hib, w8, unit=1):
    """a population whose best (by augmented fitness) has pure fitness best8, unambiguously"""
    while True:
        n = r.choice([1, 2, 3, 4]) if r.random() < .97 else 30
        specs = [(best8, r.randint(1, 4))]
        for _ in range(n - 1):
            specs.append((r.choice([best8 + d for d in (-24, -8, -1, 0, 1, 8, 24)] if abs(best8) < INF else [0, 8, best8]), r.randint(1, 6)))
        r.shuffle(specs)
        a = [aug(f, w8, s, hib) for f, s in specs]
        top = (max if hib else min)(a)
        pures = {specs[i][0] for i in range(len(specs)) if a[i] == top}
        if pures == {best8}:
            break
    inds = [ind_of(f, hib, w8, s, unit) for f, s in specs]
    sp = Subpopulation(FakeEval(), creators=GABitStringVectorCreator(length=1), operators_sequence=[], individuals=inds,
                       population_size=len(inds), higher_is_better=hib)
    return sp, dict(hib=hib, inds=[dict(f=f, a=x) for (f, _), x in zip(specs, a)])


def stag_episode(rec, hist, k):
    r = rec.rnd
    rec.ev("New")
    chk = BestFitnessStagnationTerminationChecker(stagnation_generations_to_terminate=k)
    nsp = len(hist[0])
    hib = [r.random() < .5 for _ in range(nsp)]
    w8 = r.choice([0, 0, 1, 2])
    unit = r.choice([1, 1, 1, 2.0 ** -40, 2.0 ** -400, 2.0 ** 60])   # exact scaling: the order of the values stays
    for g, vals in enumerate(hist):
        sps, logs = zip(*[make_pop(r, v, h, w8, unit) for v, h in zip(vals, hib)])
        best = sps[0].individuals[0]
        rec.ev("Stag", k=k, pops=list(logs), ans=bool(chk.should_terminate(Population(list(sps)), best, g)))


def make_stag(hist, k):
    return lambda rec: stag_episode(rec, hist, k)


def ep_stag(rec):
    r = rec.rnd
    nsp = r.choice([1, 1, 1, 2, 3]) if r.random() < .97 else 6
    vals = r.choice([[0, 8], [-8, 0, 8], [1, 2, 3], [-INF, INF, 0], [80000, 80008, -80000], [0, 1, -1]])
    hist, cur = [], [r.choice(vals) for _ in range(nsp)]
    for _ in range(r.randint(2, 16)):
        if r.random() < .45:
            j = r.randrange(nsp)
            cur = cur[:]
            cur[j] = r.choice(vals)
        hist.append(cur)
    k = r.choice([1, 1, 2, 3, 4, 5])
    if r.random() < .08:      # a long plateau
        k = r.choice([10, 20, 33])
        hist += [cur] * r.choice([k - 2, k - 1, k, k + 1]) + [[v if r.random() < .5 else r.choice(vals) for v in cur]] + [cur] * 3
    stag_episode(rec, hist, k)


def ep_thr(rec):
    r = rec.rnd
    for _ in range(40):
        opt = r.choice([0, 0, 8, -16, 3, 800, r.randint(-100, 100)])
        thr = r.choice([0, 0, 1, 8, 4, 100])
        best = r.choice([opt, opt + thr, opt - thr, opt + thr + 1, opt - thr - 1, r.randint(-200, 200), INF, -INF])
        hib = r.random() < .5
        unit = r.choice([1, 1, 1, 2.0 ** -40, 2.0 ** 60])
        far = r.choice([0, 0, 0, 2.0 ** 40, -2.0 ** 44, 2 ** 60]) if unit == 1 else 0     # a target far away from zero, near to the best
        kw = dict(optimal=(dec(opt) + far if type(far) is float else dec(opt) if far == 0 else int(opt) + far), threshold=dec(thr) * unit if type(far) is float or far == 0 else int(thr))
        if far == 0:
            kw["optimal"] *= unit
        chk = ThresholdFromTargetTerminationChecker(**kw)
        w8 = r.choice([0, 0, 3])
        ind = ind_of(best, hib, w8, r.randint(1, 5), unit)
        if far:
            ind.fitness.set_fitness(dec(best) + far if type(far) is float or abs(best) >= INF else int(best) + far)
        sp, _ = make_pop(r, r.randint(-50, 50), hib, 0)
        rec.ev("Thr", best=best, opt=opt, thr=thr, ans=bool(chk.should_terminate(Population([sp]), ind, r.randint(0, 9))))
    # default: exact hit of 0
    for best in (0, 1, -1, 8):
        rec.ev("Thr", best=best, opt=0, thr=0, ans=bool(ThresholdFromTargetTerminationChecker().should_terminate(None, ind_of(best, False), 0)))


def ep_crowd(rec):
    r = rec.rnd
    for _ in range(40):
        n = r.randint(1, 5)
        thr = r.choice([1, 8, 12])
        unit = r.choice([1, 1, 2.0 ** -40, 2.0 ** 30])
        cs = [r.choice([INF, INF, 0, 0, 1, thr - 1, thr, thr + 1, 40]) for _ in range(n)]
        inds = []
        for c in cs:
            i = BitStringVector(NSGA2Fitness(fitness=[1, 2]), length=1, vector=[0])
            i.fitness.crowding = dec(c) * unit
            inds.append(i)
        sp = Subpopulation(FakeEval(), creators=GABitStringVectorCreator(length=1), operators_sequence=[], individuals=inds)
        rec.ev("Crowd", cs=cs, thr=thr, ans=bool(CrowdingTerminationChecker(threshold=dec(thr) * unit).should_terminate(Population([sp]), None, 1)))


def main():
    q = 10 if THOROUGH else 1
    eps = [ep_stag] * (200 * q) + [ep_thr] * (15 * q) + [ep_crowd] * (15 * q)
    # all histories of two values up to a length, all stagnation lengths
    L = 8 if THOROUGH else 6
    for k in (1, 2, 3):
        for h in itertools.product([8, -8], repeat=L):
            eps.append(make_stag([[v] for v in h], k))
    run(eps)


main()
