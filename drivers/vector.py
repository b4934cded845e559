"""Vector individuals: creators, k-point crossover, mutations (C10, C11, C12)."""
from drv import *
import random, itertools
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector
from eckity.fitness import SimpleFitness
from eckity.creators import (GAVectorCreator, GABitStringVectorCreator, GAFloatVectorCreator, GAIntVectorCreator)
from eckity.genetic_operators import (VectorKPointsCrossover, VectorNPointMutation,
    BitStringVectorFlipMutation, BitStringVectorNFlipMutation, FloatVectorGaussNPointMutation,
    FloatVectorGaussOnePointMutation, FloatVectorUniformNPointMutation, FloatVectorUniformOnePointMutation,
    IntVectorNPointMutation, IntVectorOnePointMutation)

BIG = 2**55


def length(r, usual, big=.06):
    """vector length: usually small, sometimes long"""
    return r.choice([33, 40, 64, 101, 130]) if r.random() < big else r.choice(usual)


def kinds_ok(kind, vecs):
    import numpy as np
    t = (float, np.floating) if kind == "float" else (int, np.integer)
    return all(isinstance(c, t) and not isinstance(c, bool) for v in vecs for c in v)


def cell_bounds(bounds, n):
    if type(bounds) == tuple:
        return [bounds] * n
    return list(bounds)


def rnd_bounds(r, kind, n, wide=False):
    """random legal bounds (uniform tuple or per-cell list)"""
    def one():
        if kind == "bit":
            return (0, 1)
        if wide:
            a = r.choice([-BIG, 0, -BIG // 2])
            return (a, a + BIG) if kind == "int" else (float(r.randint(-50, 50)), float(r.randint(60, 90)))
        if r.random() < .12:
            # far from zero, or close together
            if kind == "int":
                a = r.choice([2**60 + 1, -2**61 - 1, 2**53 + 1, 10**20])
                return (a, a + r.choice([0, 1, 2, 9]))
            return r.choice([(0.0, 1e-10), (-1e-13, 1e-13), (1e9, 1e9 + 1e-5), (1e-300, 2e-300), (-1e300, 1e300)])
        a = r.choice([-7, -1, 0, 0, 3, 100])
        w = r.choice([0, 1, 1, 2, 5, 1000])
        if kind == "float":
            return (a + r.choice([0.0, 0.25]), a + 0.5 + w * 1.0)
        return (a, a + w)
    if r.random() < 0.45:
        return one()
    return [one() for _ in range(n)]


CLS = dict(bit=BitStringVector, int=IntVector, float=FloatVector)
CRE = dict(bit=GABitStringVectorCreator, int=GAIntVectorCreator, float=GAFloatVectorCreator)


def N(v):
    return [Num(c) for c in v]


def snapshot(inds):
    return [N(i.vector) for i in inds]


def ev_create(rec, kind, n, bounds, count, via=None):
    creator = via or CRE[kind](length=n, bounds=bounds)
    inds, exc = rec.guard("create", creator.create_individuals, count, rec.rnd.random() < .5)
    inds = inds or []
    cb = cell_bounds(bounds, n)
    rec.ev("Create", exc=exc, vs=snapshot(inds), lo=[Num(b[0]) for b in cb], hi=[Num(b[1]) for b in cb],
           kinds=kinds_ok(kind, [i.vector for i in inds]), count=count)
    return inds


def evaluated(inds):
    for i in inds:
        i.fitness.set_fitness(1)


def do_xo(rec, inds, kind, i, j, k, arity2=True, op=None):
    op = op or VectorKPointsCrossover(probability=1, k=k)
    evaluated(inds)
    pair = [inds[i], inds[j]]
    res, exc = rec.guard("xo", op.apply_operator, pair)
    same = exc != "" or (len(res) == 2 and res[0] is inds[i] and res[1] is inds[j])
    rec.ev("XO", k=k, i=i + 1, j=j + 1, post=snapshot(inds), exc=exc, same=same,
           ev=[inds[x].fitness.is_fitness_evaluated() for x in (i, j)],
           kinds=kinds_ok(kind, [x.vector for x in inds]))


def wide_cells(inds, who):
    ok = True
    for i in who:
        for b in cell_bounds(inds[i].bounds, len(inds[i].vector)):
            w = b[1] - b[0]
            if isinstance(inds[i], FloatVector):
                ok = ok and w > 0.1
            else:
                ok = ok and w >= 2**50
    return ok


def do_mut(rec, inds, kind, who, op, cls, n):
    """apply a library mutation operator"""
    evaluated(inds)
    before = [len(inds[i].applied_operators) for i in who]
    grp = [inds[i] for i in who]
    p = op.probability
    res, exc = rec.guard("mut", op.apply_operator, list(grp))
    same = exc != "" or (len(res) == len(grp) and all(a is b for a, b in zip(res, grp)))
    applied = [len(inds[i].applied_operators) > b for i, b in zip(who, before)]
    c = cls
    if exc == "" and not any(applied):
        c = "skipped"
    elif p < 1 and cls == "npoint" and "Gauss" in type(op).__name__:
        c = "maybe"
    rec.ev("Mut", cls=c, who=[i + 1 for i in who], n=n, post=snapshot(inds), exc=exc, same=same,
           wide=wide_cells(inds, who), kinds=kinds_ok(kind, [x.vector for x in inds]),
           name=type(op).__name__)


def lib_mutation(r, kind, n):
    """(operator, class, n) of a random library mutation for the vector kind"""
    p = r.choice([1.0, 1.0, 1.0, 0.5, 0.0])
    ar = r.choice([1, 1, 1, 2, 3])
    m = r.randint(1, n)
    if kind == "bit":
        return r.choice([
            lambda: (BitStringVectorFlipMutation(probability=p, arity=ar), "flip", 1),
            lambda: (BitStringVectorNFlipMutation(probability=p, arity=ar, n=m, probability_for_each=r.choice([0.2, 1.0, 0.5])), "nflip", m),
            lambda: (VectorNPointMutation(n=m, probability=p, arity=ar), "npoint", m)])()
    if kind == "int":
        return r.choice([
            lambda: (IntVectorNPointMutation(probability=p, arity=ar, n=m), "npoint", m),
            lambda: (IntVectorOnePointMutation(probability=p, arity=ar, probability_for_each=r.choice([0.1, 1.0])), "each", n),
            lambda: (VectorNPointMutation(n=m, probability=p, arity=ar), "npoint", m)])()
    sg = r.choice([0.01, 1.0, 100.0, 1e6])
    mu = r.choice([0.0, 0.0, 5.0, -1e4])
    at = r.choice([1, 2, 5])
    return r.choice([
        lambda: (FloatVectorUniformOnePointMutation(probability=p, arity=ar), "npoint", 1),
        lambda: (FloatVectorUniformNPointMutation(n=m, probability=p, arity=ar), "npoint", m),
        lambda: (FloatVectorGaussOnePointMutation(probability=p, arity=ar, mu=mu, sigma=sg, attempts=at), "npoint", 1),
        lambda: (FloatVectorGaussNPointMutation(n=m, probability=p, arity=ar, mu=mu, sigma=sg, attempts=at), "npoint", m),
        lambda: (VectorNPointMutation(n=m, probability=p, arity=ar), "npoint", m)])()


def do_custom(rec, inds, kind, who, attempts):
    """mutation with scripted callbacks: every accept/reject pattern"""
    r = rec.rnd
    log = []
    idx = {id(inds[i]): x + 1 for x, i in enumerate(who)}
    pending = {}

    def selector(vec):
        i = idx.get(id(vec), 0)
        if not log or any(e["i"] == i for e in log[-1]):
            log.append([])
        n = len(vec.vector)
        cells = r.sample(range(n), r.randint(1, n))
        e = dict(i=i, cells=[c + 1 for c in cells], vals=[], old=[], new=[], ok=True)
        log[-1].append(e)
        pending[id(vec)] = e
        return cells

    def getter(vec, c):
        b = cell_bounds(vec.bounds, len(vec.vector))[c]
        v = r.uniform(b[0] - 3, b[1] + 3) if kind == "float" else r.randint(b[0] - 3, b[1] + 3)
        pending[id(vec)]["vals"].append(Num(v))
        return v

    p_ok = r.choice([0.0, 0.3, 0.6, 0.9])
    last_of = {}

    def checker(old, new):
        e = pending[id(new)]
        e["old"], e["new"] = N(old.vector), N(new.vector)
        e["ok"] = r.random() < p_ok
        return e["ok"]

    op = VectorNPointMutation(n=1, probability=1.0, arity=len(who), cell_selector=selector, mut_val_getter=getter,
                              success_checker=checker, attempts=attempts)
    evaluated(inds)
    grp = [inds[i] for i in who]
    res, exc = rec.guard("custom", op.apply_operator, list(grp))
    same = exc != "" or (len(res) == len(grp) and all(a is b for a, b in zip(res, grp)))
    rec.ev("Custom", who=[i + 1 for i in who], maxatt=attempts, log=log, post=snapshot(inds), exc=exc, same=same)


# ---------------------------------------------------------------- episodes
def ep_mixed(rec):
    """one pool, any sequence of operators"""
    r = rec.rnd
    kind = r.choice(["bit", "int", "float"])
    n = length(r, [1, 2, 2, 3, 4, 6, 9, 12])
    bounds = rnd_bounds(r, kind, n, wide=r.random() < .4)
    inds = ev_create(rec, kind, n, bounds, 4)
    if len(inds) < 4:
        return
    for _ in range(10):
        x = r.random()
        if x < .35 and n >= 2:
            i, j = r.sample(range(4), 2)
            do_xo(rec, inds, kind, i, j, r.randint(1, n - 1))
        else:
            op, cls, m = lib_mutation(r, kind, n)
            who = r.sample(range(4), op.arity)
            do_mut(rec, inds, kind, who, op, cls, m)


def mk(kind, n, vecs, bounds):
    return [CLS[kind](SimpleFitness(higher_is_better=False), length=n, bounds=bounds, vector=list(v)) for v in vecs]


def setup(rec, kind, n, bounds, vecs):
    cb = cell_bounds(bounds, n)
    inds = mk(kind, n, vecs, bounds)
    rec.ev("Setup", vs=snapshot(inds), lo=[Num(b[0]) for b in cb], hi=[Num(b[1]) for b in cb])
    return inds


def ep_xo(rec):
    """crossover of vectors with all cells distinct: every (n, k)"""
    r = rec.rnd
    n = length(r, range(2, 11))
    kind = r.choice(["int", "int", "float"])
    bounds = (0, 1000) if kind == "int" else (0.0, 1000.0)
    vals = r.sample(range(0, 1000), 3 * n)
    f = int if kind == "int" else float
    vecs = [[f(v) for v in vals[i * n:(i + 1) * n]] for i in range(3)]
    inds = setup(rec, kind, n, bounds, vecs)
    for _ in range(10):
        i, j = r.sample(range(3), 2)
        do_xo(rec, inds, kind, i, j, r.choice([1, 2, n - 1, r.randint(1, n - 1), r.randint(1, n + 1)]))


def make_xo_cover(n, k):
    def ep(rec):
        outs = set()
        u, v = list(range(1, n + 1)), list(range(101, 101 + n))
        from math import comb, log as ln
        m = comb(n - 1, k)
        trials = int(m * (ln(m + 1) + 30)) + 30
        op = VectorKPointsCrossover(probability=1, k=k)
        for _ in range(trials):
            a, b = mk("int", n, [u, v], (0, 1000))
            op.apply_operator([a, b])
            outs.add((tuple(a.vector), tuple(b.vector)))
        rec.ev("XOCover", k=k, u=u, v=v, outs=sorted(outs))
    return ep


def make_xo_reach(n, k):
    """long vectors: every position is cut sometimes, and left uncut sometimes"""
    def ep(rec):
        from math import log as ln
        T = int((n - 1) / max(1, min(k, n - 1 - k)) * (ln(n) + 34)) + 40
        u, v = list(range(1, n + 1)), list(range(n + 1, 2 * n + 1))
        op = VectorKPointsCrossover(probability=1, k=k)
        cut, uncut, ks = set(), set(), set()
        for _ in range(T):
            a, b = mk("int", n, [u, v], (0, 5 * n))
            op.apply_operator([a, b])
            src = [c <= n for c in a.vector]
            now = {i for i in range(1, n) if src[i] != src[i - 1]}
            ks.add(len(now))
            cut |= now
            if len(uncut) < n - 1:
                uncut |= set(range(1, n)) - now
        rec.ev("XOReach", n=n, k=k, cut=sorted(cut), uncut=sorted(uncut), counts=sorted(ks))
    return ep


def make_posreach(cls_, kind, n):
    """long vectors: every cell is changed sometimes; every pair of regions together"""
    def ep(rec):
        from math import log as ln
        b = (-BIG, BIG) if kind == "int" else ((0.0, 1.0) if kind == "float" else (0, 1))
        v0 = [0.5] * n if kind == "float" else [0] * n
        one = cls_ in (BitStringVectorFlipMutation, FloatVectorUniformOnePointMutation, FloatVectorGaussOnePointMutation)
        for m in ([1] if one else [2, max(3, n // 4)]):
            kw = {} if one else dict(n=m)
            if cls_ in (FloatVectorGaussOnePointMutation, FloatVectorGaussNPointMutation):
                kw.update(sigma=0.001, attempts=1)
            op = cls_(probability=1.0, **kw)
            # m == 2: six regions, all 21 pairs of them; otherwise all cells
            T = (1350 if n > 60 else 2700) if m == 2 else int(n / m * (ln(n) + 34)) + 40
            T = min(T, 60000 // max(1, n // 40))
            if one:
                T = 230           # six regions
            cells, pairs = set(), set()
            ind = mk(kind, n, [v0], b)[0]
            for _ in range(T):
                ind.set_vector(list(v0))
                op.apply_operator([ind])
                ch = [i + 1 for i in range(n) if ind.vector[i] != v0[i]]
                cells.update(ch)
                if m == 2 and len(ch) == 2:
                    pairs.add(tuple(sorted(1 + (c - 1) * 6 // n for c in ch)))
            rec.ev("PosReach", n=n, m=m, how="pairs" if m == 2 else ("regions" if one else "cells"),
                   cells=sorted(cells), regions=sorted({1 + (c - 1) * 6 // n for c in cells}), pairs=sorted(pairs))
    return ep


def ep_custom(rec):
    r = rec.rnd
    kind = r.choice(["int", "float", "bit"])
    n = length(r, range(1, 6), .04)
    bounds = rnd_bounds(r, kind, n)
    inds = ev_create(rec, kind, n, bounds, 4)
    for _ in range(8):
        if len(inds) < 4:
            return
        do_custom(rec, inds, kind, r.sample(range(4), r.choice([1, 1, 2, 3, 4])), r.randint(1, 4))


def ep_mut(rec):
    """mutations with wide ranges: exact locality"""
    r = rec.rnd
    kind = r.choice(["bit", "int", "float", "float"])
    n = length(r, [1, 2, 3, 5, 8, 20])
    bounds = rnd_bounds(r, kind, n, wide=True)
    inds = ev_create(rec, kind, n, bounds, 4)
    for _ in range(12):
        if len(inds) < 4:
            return
        op, cls, m = lib_mutation(r, kind, n)
        do_mut(rec, inds, kind, r.sample(range(4), op.arity), op, cls, m)


def make_poscover(cls_, kind, n, m):
    def ep(rec):
        from math import comb, log as ln
        c = comb(n, m)
        sets = set()
        b = (-BIG, BIG) if kind == "int" else ((0.0, 1.0) if kind == "float" else (0, 1))
        for _ in range(int(c * (ln(c + 1) + 32)) + 40):
            kw = {} if cls_ in (BitStringVectorFlipMutation, FloatVectorUniformOnePointMutation, FloatVectorGaussOnePointMutation) else dict(n=m)
            if cls_ in (FloatVectorGaussOnePointMutation, FloatVectorGaussNPointMutation):
                kw.update(sigma=0.001, attempts=1)
            v0 = [0.5] * n if kind == "float" else [0] * n
            ind = mk(kind, n, [v0], b)[0]
            cls_(probability=1.0, **kw).apply_operator([ind])
            sets.add(tuple(i + 1 for i in range(n) if ind.vector[i] != v0[i]))
        rec.ev("PosCover", n=m, len=n, sets=sorted(sets))
    return ep


def make_cover(kind, bounds, n, how):
    """every value of a small range is reachable in every cell"""
    def ep(rec):
        cb = cell_bounds(bounds, n)
        seen = [set() for _ in range(n)]
        span = max(b[1] - b[0] + 1 for b in cb)
        T = int(span * 40)
        if how == "create":
            for ind in CRE[kind](length=n, bounds=bounds).create_individuals(T, True):
                for i, c in enumerate(ind.vector):
                    seen[i].add(c)
        else:
            op = IntVectorNPointMutation(n=n) if kind == "int" else VectorNPointMutation(n=n)
            ind = mk(kind, n, [[b[0] for b in cb]], bounds)[0]
            for _ in range(T):
                op.apply_operator([ind])
                for i, c in enumerate(ind.vector):
                    seen[i].add(c)
        rec.ev("Cover", lo=[b[0] for b in cb], hi=[b[1] for b in cb], seen=[sorted(s) for s in seen])
    return ep


def ep_query(rec):
    """the in-bounds query, on and around the bounds"""
    r = rec.rnd
    for _ in range(25):
        kind = r.choice(["int", "float"])
        n = length(r, [1, 2, 2, 3, 4])
        bounds = rnd_bounds(r, kind, n)
        cb = cell_bounds(bounds, n)
        vec = []
        for b in cb:
            e = 1 if kind == "int" else r.choice([1e-9, 0.5, (b[1] - b[0]) / 4 or 1.0])
            c = [b[0], b[1], (b[0] + b[1]) // 2 if kind == "int" else (b[0] + b[1]) / 2]
            vec.append(r.choice(c * 4 + [b[0] - e, b[1] + e]))
        ind = mk(kind, n, [vec], bounds)[0]
        rec.ev("InB", vec=N(vec), lo=[Num(b[0]) for b in cb], hi=[Num(b[1]) for b in cb],
               ans=bool(ind.check_if_in_bounds()))


def ep_create(rec):
    r = rec.rnd
    for _ in range(6):
        kind = r.choice(["bit", "int", "float"])
        n = length(r, [1, 2, 3, 7, 15], .1)
        bounds = rnd_bounds(r, kind, n)
        via = None
        x = r.random()
        if x < .3:
            via = GAVectorCreator(length=n, bounds=bounds, vector_type=CLS[kind])
        elif x < .45:
            bounds = (0, 1) if kind != "float" else (0.0, 1.0)
            via = CRE[kind](length=n)
        ev_create(rec, kind, n, bounds, r.choice([1, 2, 5, 40]), via)


def main():
    eps = []
    q = 12 if THOROUGH else 1
    if PROP in ("C10", ""):
        eps += [ep_mixed] * (150 * q) + [ep_create] * (40 * q) + [ep_query] * (20 * q) + [ep_mut] * (40 * q)
        for how in ("create", "mutate"):
            eps += [make_cover("bit", (0, 1), 4, how), make_cover("int", (-1, 2), 3, how),
                    make_cover("int", [(0, 1), (5, 8)], 2, how), make_cover("int", [(3, 3), (-2, 0), (7, 9)], 3, how),
                    make_cover("bit", [(0, 1)] * 3, 3, how)]
    if PROP in ("C11", ""):
        eps += [ep_xo] * (220 * q) + [ep_mixed] * (20 * q)
        eps += [make_xo_cover(n, k) for n in range(2, 8 if THOROUGH else 7) for k in range(1, n)]
        for n in ((9, 12, 20, 33, 65, 130, 260) if not THOROUGH else (9, 10, 12, 16, 17, 20, 33, 50, 65, 101, 130, 260, 520)):
            ks = {1, 2, n // 4, n // 2, n // 2 + 1, (3 * n) // 4, n - 3, n - 2, n - 1}
            if n > 40 and not THOROUGH:
                ks = {1, n // 4, (3 * n) // 4, n - 2, n - 1}
            eps += [make_xo_reach(n, k) for k in sorted(ks)]
    if PROP in ("C12", ""):
        eps += [ep_custom] * (160 * q) + [ep_mut] * (160 * q)
        for n in ((3, 5) if not THOROUGH else (2, 3, 4, 5, 6)):
            eps += [make_poscover(BitStringVectorFlipMutation, "bit", n, 1), make_poscover(FloatVectorUniformOnePointMutation, "float", n, 1),
                    make_poscover(FloatVectorGaussOnePointMutation, "float", n, 1)]
            for m in range(1, n + 1):
                eps += [make_poscover(IntVectorNPointMutation, "int", n, m), make_poscover(FloatVectorUniformNPointMutation, "float", n, m),
                        make_poscover(FloatVectorGaussNPointMutation, "float", n, m)]
        for n in ((20, 130, 300, 1100) if not THOROUGH else (20, 50, 65, 101, 130, 260, 300, 520, 1100, 2100)):
            eps += [make_posreach(c, k, n) for c, k in ((BitStringVectorFlipMutation, "bit"), (FloatVectorUniformOnePointMutation, "float"),
                    (FloatVectorGaussOnePointMutation, "float"), (IntVectorNPointMutation, "int"), (FloatVectorUniformNPointMutation, "float"),
                    (FloatVectorGaussNPointMutation, "float"), (VectorNPointMutation, "int"))]
    run(eps)


main()
