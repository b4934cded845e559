"""Selection methods (C08)."""
from evolib import *
from eckity.genetic_encodings.ga import BitStringVector, IntVector
from eckity.fitness import SimpleFitness, GPFitness


def mk_ind(r, f8, hib, w8, val, cache=False):
    sz = r.randint(1, 4)
    fit = GPFitness(higher_is_better=hib, bloat_weight=w8 / 8, cache=cache) if w8 else SimpleFitness(higher_is_better=hib, cache=cache)
    i = IntVector(fit, length=sz, bounds=(0, 1000), vector=[val] * sz)
    i.fitness.set_fitness(float("inf") if f8 >= INF else float("-inf") if f8 <= -INF else f8 / 8)
    return i


def aug8(i):
    return enc(i.get_augmented_fitness())


def snap(rec, R, i, a=None):
    return dict(u=rec.uid(i), id=i.id, g=R(genome(i)), cf=i.cloned_from, sel=list(i.selected_by), ops=list(i.applied_operators),
                a=aug8(i) if i.fitness.is_fitness_evaluated() else NONE, gen=i.gen, st=[rec.uid(i.vector), rec.uid(i.fitness)])


def population(r, n, kind, hib):
    w8 = r.choice([0, 0, 1]) if kind != "fp" else 0
    if kind == "fp":
        pool = r.choice([[1, 2, 3, 4, 6, 12], [0, 1, 2, 3, 5, 11], [0, 0, 1], [0], [1, 12]])
    else:
        pool = r.choice([[0], [0, 1], [-8, 0, 8], list(range(-40, 40)), [INF, -INF, 0, 8], [-1, -2, -3]])
    return [mk_ind(r, r.choice(pool), hib, w8, k, cache=r.random() < .3) for k in range(n)]


def make_sel(r, kind, n, hib, t=None):
    if kind == "elitism":
        t = r.randint(0, n + 1)
        return ElitismSelection(num_elites=t, higher_is_better=hib), t
    if kind == "fp":
        return FitnessProportionateSelection(higher_is_better=hib), 0
    t = t or r.choice([1, 2, 3, n, max(1, n - 1)])
    if kind == "tournr":
        if r.random() < .1:
            t = n + r.randint(1, 3)
        return TournamentSelection(tournament_size=t, higher_is_better=hib, replace=False), t
    return TournamentSelection(tournament_size=t, higher_is_better=hib), t


def ep_sel(rec):
    r = rec.rnd
    G = Interner()
    for _ in range(4):
        kind = r.choice(["tour", "tournr", "fp", "elitism"])
        n = r.choice([1, 2, 3, 4, 6, 9]) if r.random() < .96 else r.choice([33, 64, 101, 130, 260])
        hib = r.random() < .5
        src = population(r, n, kind, hib)
        for i in src:
            i.gen = r.randint(0, 5)
            i.applied_operators.append("Old")
            i.selected_by.append("OldSel")
        neg = False
        if kind == "fp" and r.random() < .15:
            src[r.randrange(n)].fitness.set_fitness(-0.125)
            neg = True
        sel, t = make_sel(r, kind, n, hib)
        d = r.randint(0, n) if kind != "elitism" else r.randint(0, 3)
        dest = []
        for _ in range(d):
            x = mk_ind(r, 8, hib, 0, 500)
            dest.append(x)
        kept = [snap(rec, G, i) for i in dest]
        before = [snap(rec, G, i) for i in src]
        order = list(src)
        res, exc = rec.guard("sel", r.choice([sel.select, lambda a, b: sel.apply_operator((a, b))]), src, dest)
        rec.ev("Sel", kind=kind, name=type(sel).__name__, t=t, hib=hib, unit=10**6, src=before,
               src2=[snap(rec, G, i) for i in src], kept=kept, dest=[snap(rec, G, i) for i in dest],
               same=exc != "" or (res is dest and all(a is b for a, b in zip(order, src)) and len(order) == len(src)),
               must=neg or (kind == "tournr" and t > n), exc=exc)


def unit(fits, one, hib):
    return 1 if hib else math.lcm(*[f + one if 0 in fits else f for f in fits])


def make_counts(kind, fits, t, hib, replace, m, one=1, scale=None):
    """fits are augmented fitness values in units of 1/one; part of each may be bloat.
    With a scale, the fitness values are that many times as large: what counts is their proportions."""
    def ep(rec):
        r = rec.rnd
        src = []
        w = r.choice([0, 0, 1]) / one if scale is None else 0
        for k, f in enumerate(fits):
            sz = r.randint(1, 3)
            fit = GPFitness(higher_is_better=hib, bloat_weight=w) if w else SimpleFitness(higher_is_better=hib)
            i = IntVector(fit, length=sz, bounds=(0, 1000), vector=[k] * sz)
            v = (f / one + (w * sz if hib else -w * sz)) * (scale or 1)
            i.fitness.set_fitness(int(v) if type(scale) is int or scale is None and v == int(v) and r.random() < .7 else v)
            src.append(i)
        sel = FitnessProportionateSelection(higher_is_better=hib) if kind == "fp" else \
            TournamentSelection(tournament_size=t, higher_is_better=hib, replace=replace)
        cnt, tot = [0] * len(fits), 0
        ids = {i.id: k for k, i in enumerate(src)}
        while tot < m:
            for x in sel.select(src, []):
                cnt[ids[x.cloned_from]] += 1
                tot += 1
        rec.ev("Counts", kind=kind, fit=list(fits), t=t, hib=hib, replace=replace, m=tot, cnt=cnt,
               unit=unit(fits, one, hib) if kind == "fp" else 1,
               one=one)
    return ep


def make_large(kind, n, hib):
    """a pool of more individuals than any cut-off: the winners come from all over it"""
    def ep(rec):
        r = rec.rnd
        fits = [1] * n
        block = [k * 16 // n + 1 for k in range(n)]      # counted by sixteenths of the pool
        src = []
        for k in range(n):
            i = IntVector(SimpleFitness(1.0, higher_is_better=hib), length=1, bounds=(0, 10**6), vector=[k])
            src.append(i)
        sel = FitnessProportionateSelection(higher_is_better=hib) if kind == "fp" else \
            TournamentSelection(tournament_size=1, higher_is_better=hib, replace=kind == "tour")
        ids = {i.id: k for k, i in enumerate(src)}
        cnt, tot = [0] * 16, 0
        for _ in range(3):
            for x in sel.select(src, []):
                cnt[block[ids[x.cloned_from]] - 1] += 1
                tot += 1
        rec.ev("Spread", kind=kind, n=n, m=tot, sizes=[block.count(b) for b in range(1, 17)], cnt=cnt)
    return ep


def main():
    q = 10 if THOROUGH else 1
    eps = [ep_sel] * (250 * q)
    m = 12000 if THOROUGH else 3000
    for hib in (True, False):
        for fits in ([1, 2, 3, 4], [1, 1, 2, 5, 5], [7, 7, 7], [3, -2, 0, 9, -8, 4], [0, 1], [5]):
            for t in (1, 2, 3):
                eps.append(make_counts("tour", fits, t, hib, True, m))
                if t <= len(fits):
                    eps.append(make_counts("tour", fits, t, hib, False, m))
        for fits in ([1, 2, 3, 4], [1, 1, 5, 10], [12, 1], [30, 20, 10, 5, 1], [1, 1, 1], [6]):
            eps.append(make_counts("fp", fits, 0, hib, True, m))
        for fits in ([0, 1, 2, 3, 4], [0, 0, 5], [0, 9], [0, 0, 0], [0, 2, 11, 19]):
            eps.append(make_counts("fp", fits, 0, hib, True, m))
        for n in (33, 50, 101):
            fits = [(7 * i) % n - 3 for i in range(n)]
            eps.append(make_counts("tour", fits, 2, hib, n != 50, m))
            fits = [(i * i) % 7 + (0 if n == 50 else 1) for i in range(n)]
            eps.append(make_counts("fp", fits, 0, hib, True, m))
        for fits, one in (([1, 1, 1, 1, 4], 16), ([1, 8, 8, 8], 8), ([3, 2, 1], 4), ([0, 1, 3], 4), ([1, 16], 8), ([4, 2, 2, 1, 1], 1024),
                          ([8, 4, 2, 6], 8), ([0, 3, 1], 4), ([16, 1, 24], 16), ([0, 7, 7, 8], 8)):
            eps.append(make_counts("fp", fits, 0, hib, True, m, one))
        for scale in (2.0**-900, 2.0**-140, 2.0**-30, 2.0**40, 2.0**140, 2.0**900, 15000, 300, 10**9, 2**50):
            for fits in ([1, 2, 4], [1, 1, 5, 10], [12, 1]):
                eps.append(make_counts("fp", fits, 0, hib, True, m, 1, scale))
                eps.append(make_counts("tour", fits, 2, hib, True, m, 1, scale))
        for n in (64, 130, 257, 300, 600, 1100):
            for kind in ("tour", "tournr", "fp"):
                eps.append(make_large(kind, n, hib))
        r = random.Random(11 if hib else 12)
        for _ in range(60 if THOROUGH else 12):
            while True:      # the weights are integers that fit TLC's arithmetic
                fits = [r.choice([0, 1, 1, 2, 3, 4, 6, 8, 12, 16, 24]) for _ in range(r.randint(2, 7))]
                one = r.choice([1, 2, 4, 8, 64])
                if unit(fits, one, hib) * len(fits) <= 100000:
                    break
            eps.append(make_counts("fp", fits, 0, hib, True, m, one))
            fits = [r.randint(-6, 6) for _ in range(r.randint(1, 7))]
            eps.append(make_counts("tour", fits, r.randint(1, min(4, len(fits))), hib, r.random() < .5, m, r.choice([1, 8])))
    run(eps)


main()
