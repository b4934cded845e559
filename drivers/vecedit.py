"""Editing calls on vector individuals (C29)."""
import math
from drv import *
from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector

CLS = dict(bit=BitStringVector, int=IntVector, float=FloatVector)
VALS = dict(bit=[0, 1], int=[-3, -1, 0, 1, 2, 9], float=[-2.5, -1.0, 0.0, .5, 1.25, 8.0])


def N(v):
    return [Num(c) for c in v]


def ep_edit(rec):
    r = rec.rnd
    kind = r.choice(list(CLS))
    n = r.choice([1, 2, 3, 5, 9]) if r.random() < .96 else r.choice([11, 33, 64, 130, 300])
    vals = VALS[kind]
    lo, hi = min(vals), max(vals)
    vec = lambda m: [r.choice(vals) for _ in range(m)]

    def make(v):
        b = r.choice([(lo, hi), [(lo, hi)] * len(v)])
        if r.random() < .5:
            return CLS[kind](fitness=SimpleFitness(), length=len(v), bounds=b, vector=list(v))
        i = CLS[kind](fitness=SimpleFitness(), length=len(v), bounds=(lo, hi), **({} if r.random() < .5 else dict(update_parents=True)))
        i.set_vector(list(v))
        return i
    m = r.choice([1, 2, 3])
    want = [vec(n) for _ in range(m)]
    inds = [make(v) for v in want]

    def ev(op, **kw):
        rec.ev(op, pool=[N(i.vector) for i in inds], sizes=[i.size() for i in inds], lens=[i.length for i in inds], **kw)
    ev("New", want=[N(v) for v in want])
    given = None
    for _ in range(r.choice([8, 20, 40])):
        j = r.randrange(m)
        ind = inds[j]
        L = len(ind.vector)
        k = r.choice(["Add", "Set", "Set", "SetVector", "Cell", "Vector", "Part", "Replace", "Replace", "ReplaceRandom", "RandomPart", "Spoil", "Clone", "Empty", "Execute"])
        if L == 0 and k not in ("Add", "SetVector", "Clone", "Empty", "Vector"):
            continue
        if k == "Empty" and r.random() < .6:
            continue
        i = dict(i=j + 1)
        if k == "Add":
            x = r.choice(vals)
            _, exc = rec.guard("", ind.add_cell, x)
            ev(k, x=Num(x), exc=exc, **i)
        elif k == "Empty":
            _, exc = rec.guard("", ind.empty_vector)
            ev(k, exc=exc, **i)
        elif k in ("Set", "Cell") and r.random() < .15:     # there is no such cell
            q = r.choice([L, L + 1, 2 * L, -L - 1, -2 * L - 1])
            _, exc = rec.guard("", ind.set_cell_value, q, r.choice(vals)) if k == "Set" else rec.guard("", ind.cell_value, q)
            ev("NoCell", exc=exc, **i)
        elif k == "Set":
            q, x = r.randrange(L), r.choice(vals)
            _, exc = rec.guard("", ind.set_cell_value, q if r.random() < .8 else q - L, x)
            ev(k, k=q + 1, x=Num(x), exc=exc, **i)
        elif k == "SetVector":
            w = vec(r.choice([0, 1, L, L + 2]))
            _, exc = rec.guard("", ind.set_vector, list(w))
            ev(k, w=N(w), exc=exc, **i)
        elif k == "Cell":
            q = r.randrange(L)
            res, exc = rec.guard("", ind.cell_value, q if r.random() < .8 else q - L)
            ev(k, k=q + 1, ret=N([res]), exc=exc, **i)
        elif k in ("Vector", "Execute"):
            res, exc = rec.guard("", ind.get_vector if k == "Vector" else ind.execute)
            ev("Vector", ret=N(list(res)), exc=exc, **i)
        elif k == "Part":
            a = r.randrange(L)
            b = r.randint(a + 1, L)
            given, exc = rec.guard("", ind.get_vector_part, a, b)
            ev(k, a=a + 1, b=b, ret=N(given or []), exc=exc, **i)
        elif k in ("Replace", "ReplaceRandom"):
            w = vec(r.choice([1, 1, 2, L, r.randint(1, L)]))[:L]
            p = list(w)
            if k == "Replace":
                q = r.choice([0, L - len(w), r.randint(0, L - len(w))])
                given, exc = rec.guard("", ind.replace_vector_part, p, q)
                ev(k, w=N(w), k=q + 1, ret=N(given or []), exc=exc, **i)
            else:
                given, exc = rec.guard("", ind.replace_vector_part_random, p)
                ev(k, w=N(w), ret=N(given or []), exc=exc, **i)
            if r.random() < .5:     # the caller goes on using its own list
                p[0] = vals[0] if p[0] != vals[0] else vals[1]
                ev("Spoil")
        elif k == "RandomPart":
            given, exc = rec.guard("", ind.random_vector_part)
            ev(k, ret=N(given or []), exc=exc, **i)
        elif k == "Spoil" and given:
            q = r.randrange(len(given))
            given[q] = vals[0] if given[q] != vals[0] else vals[1]
            if r.random() < .3:
                given.append(vals[0])
            ev("Spoil")
        elif k == "Clone":
            q = r.randrange(m)
            if q != j:
                inds[q] = ind.clone()
                ev("Clone", j=q + 1, **i)
    j = r.randrange(m)
    if inds[j].vector:
        # bounds of the individual as it is now
        L = len(inds[j].vector)
        b = [tuple(sorted((r.choice(vals), r.choice(vals)))) for _ in range(L)]
        if r.random() < .5:
            b = [(lo, hi)] * L
            b[r.randrange(L)] = tuple(sorted((r.choice(vals), r.choice(vals))))
        if r.random() < .3:
            b = [b[0]] * L
            inds[j].bounds = b[0]
        else:
            inds[j].bounds = b
        ev("Bounds", i=j + 1, res=bool(inds[j].check_if_in_bounds()), lo=N([x for x, _ in b]), hi=N([y for _, y in b]))


def samples(k, p):
    return math.ceil((math.log(k) + 25) / p * 1.3)


def ep_all(rec):
    r = rec.rnd
    n = r.choice([1, 2, 3, 4, 5, 6])
    v = r.sample(range(-20, 20), n)
    ind = IntVector(fitness=SimpleFitness(), length=n, bounds=(-20, 20), vector=list(v))
    base = dict(pool=[], sizes=[], lens=[])
    # a start, then an end not before it
    seen = {tuple(ind.random_vector_part()) for _ in range(samples(n * n, 1 / n / n))}
    rec.ev("AllParts", v=v, seen=[list(x) for x in seen], **base)
    w = [50 + i for i in range(r.randint(1, n))]
    seen = set()
    for _ in range(samples(n, 1 / n)):
        ind.set_vector(list(v))
        ind.replace_vector_part_random(list(w))
        seen.add(tuple(ind.vector))
    rec.ev("AllPlaces", v=v, w=w, seen=[list(x) for x in seen], **base)
    # numbers in bounds
    kind = r.choice(["int", "bit"])
    lo = r.choice([-2, 0, 3]) if kind == "int" else 0
    hi = lo + r.choice([0, 1, 4]) if kind == "int" else 1
    q = r.randrange(n)
    bs = [(50, 60)] * n if kind == "int" else [(0, 0)] * n
    bs[q] = (lo, hi)
    b = r.choice([(lo, hi), bs])
    ind = CLS[kind](fitness=SimpleFitness(), length=n, bounds=b, vector=[0] * n)
    rec.ev("AllNums", lo=lo, hi=hi, seen=sorted({ind.get_random_number_in_bounds(q) for _ in range(samples(5, 1 / 5))}), **base)


q = 10 if THOROUGH else 1
run([ep_edit] * (500 * q) + [ep_all] * (60 * q))
