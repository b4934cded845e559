"""Whole single- and multi-objective runs (C01, C02, C03, C06, C07, C24, C05 seeds)."""
from evolib import *
import multiprocessing


def workers():
    """threads and processes at work"""
    return {id(t): t for t in threading.enumerate()} | {p.pid: p for p in multiprocessing.active_children()}


def left(before):
    """how many are left of those which came since, after some patience"""
    for _ in range(300):
        n = sum(1 for k in workers() if k not in before)
        if not n:
            return 0
        time.sleep(.01)
    return n


def ep_run(rec, **kw):
    r = rec.rnd
    c = random_conf(r, **kw)
    before = workers()
    alg, R, ev = build(c, r, rec)
    alg.evolve()
    w = left(before)
    inds = alg.population.sub_populations[0].individuals
    b = alg.best_of_run_
    g = genome(b)
    if c.kind == "tree":
        x, y = r.randint(-5, 5), r.randint(-5, 5)
        got, want = alg.execute(x=x, y=y), tree_eval(g, dict(x=x, y=y))
        got, want = repr(float(got)), repr(float(want))
    else:
        got, want = tuple(alg.execute()), g
    rec.ev("End", fin=alg.final_generation_, best=[R.full(b)], pop=R.pop(inds), got=str(got), want=str(want), left=w)


def ep_ids(rec):
    """very many individuals, made and copied: each has an id of its own"""
    from eckity.genetic_encodings.ga import BitStringVector
    from eckity.fitness import SimpleFitness
    r = rec.rnd
    fit = SimpleFitness(1.0)
    ids, n = set(), 0
    first = kept = BitStringVector(fit, 1)
    ids.add(first.id)
    n += 1
    for b in range(140):
        for _ in range(1000):
            x = BitStringVector(fit, 1)
            ids.add(x.id)
        for _ in range(10):
            y = r.choice([x, first, kept]).clone()
            ids.add(y.id)
            kept = r.choice([kept, y])
        n += 1010
    rec.ev("Ids", n=n, distinct=len(ids))


def ep_workers(rec):
    """nothing of a run is left at the moment it returns"""
    r = rec.rnd
    from eckity.algorithms.simple_evolution import SimpleEvolution
    from eckity.creators import GAIntVectorCreator

    class Flat(SimpleIndividualEvaluator):
        def evaluate_individual(self, ind):
            return 0

    runs = late = 0
    for _ in range(40):
        s = Subpopulation(Flat(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=r.choice([10, 40, 60]),
                          operators_sequence=[], selection_methods=[(TournamentSelection(tournament_size=1), 1)])
        before = set(threading.enumerate())
        SimpleEvolution(s, max_generation=r.choice([0, 1, 1]), random_seed=1, max_workers=r.choice([8, 16, 32]), statistics=[]).evolve()
        late += any(t not in before for t in threading.enumerate())
        runs += 1
    rec.ev("Workers", runs=runs, late=late)


def main():
    q = 8 if THOROUGH else 1
    big = lambda k, **kw: lambda rec: ep_run(rec, big=k, **kw)
    nsga = lambda rec: ep_run(rec, nsga=True)
    proc = lambda rec: ep_run(rec, executor="process")
    eps = [ep_run] * (600 * q)
    eps += [big("pop")] * (12 * q) + [big("gens")] * (12 * q) + [big("long")] * (12 * q)
    eps += [big("crowd")] * (12 * q) + [big("marathon")] * ((8 if PROP == "C01" else 3) * q)
    if PROP in ("C03", "C06"):
        eps += [big("pop", nsga=True)] * (6 * q) + [big("gens", nsga=True)] * (6 * q)
    if PROP in ("C03", "C06", "C07", "C05"):
        eps += [nsga] * (200 * q)
    if PROP in ("C04",):
        eps = eps[:200 * q]
    if PROP in ("C01", "C03", "C06"):
        eps += [proc] * (6 * q)
    if PROP == "C03":
        eps += [ep_ids]
    if PROP == "C06":
        eps += [ep_workers] * (4 * q)
    run(eps)


main()
