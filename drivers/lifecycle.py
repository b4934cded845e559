"""Individuals under random sequences of clone/copy/pickle/evaluate/invalidate/operate/compare (C09, C17)."""
from evolib import *
import copy, pickle
from eckity.fitness import SimpleFitness, GPFitness
from eckity.genetic_encodings.ga import BitStringVector, IntVector, FloatVector
from eckity.base.typed_functions import add2floats, sub2floats

E = Interner()


def env_of(ind):
    """bounds / primitives and settings, by content"""
    if hasattr(ind, "vector"):
        return E(("v", repr(ind.bounds), ind.length))
    return E(("t", tuple(f.__name__ for f in ind.function_set), repr(ind.terminal_set), repr(ind.erc_range), str(ind.root_type)))


# scores whose order matters but which are no multiples of 1/8, by their place in the order
CODE = {}


def vec(v):
    if v is None:
        return []
    if CODE and not isinstance(v, (list, tuple)):
        return [CODE.get(v, -777777777)]
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    return [enc(v)]


class Pool:
    def __init__(self, rec):
        self.rec, self.inds, self.G = rec, [], Interner()
        self.names = Interner()

    def snap(self, i):
        f = i.fitness
        try:
            v, rd = i.get_pure_fitness(), ""
        except Exception as ex:
            v, rd = None, type(ex).__name__
        kind = "nsga" if isinstance(f, NSGA2Fitness) else "simple"
        u = self.rec.uid
        st = [u(f)]
        if hasattr(i, "vector"):
            st.append(u(i.vector))
        else:
            st += [u(i.tree)] + [u(n) for n in i.tree]
        if hasattr(i, "_notes"):
            st += [u(i._notes), u(i.extra)]
        w = getattr(f, "bloat_weight", 0)
        return dict(id=i.id, cf=i.cloned_from, gen=i.gen, sel=[str(x) for x in i.selected_by], ops=[str(x) for x in i.applied_operators],
                    par=list(i.parents) if i.update_parents else [], up=bool(i.update_parents), g=self.G(genome(i)), f=vec(v), rd=rd,
                    ev=bool(f.is_fitness_evaluated()), cache=bool(f.cache), rel=bool(f.is_relative_fitness),
                    hib=f.higher_is_better in (True, [True, True]), w=int(w * 8), env=env_of(i), typ=type(i).__name__ + "/" + type(f).__name__,
                    size=size(i), kind=kind, st=st)

    def ev(self, op, **kw):
        self.rec.ev(op, pool=[self.snap(i) for i in self.inds], **kw)


WIDTH = [4]


def new_ind(r, world, hib):
    cache, rel, up = r.random() < .5, r.random() < .2, r.random() < .5
    kw = dict(higher_is_better=hib, cache=cache, is_relative_fitness=rel)
    if world == "nsga" or (world == "mixed" and r.random() < .5):
        kw["higher_is_better"] = r.choice([True, False])
        fit = NSGA2Fitness(**kw) if r.random() < .7 else NSGA2Fitness(fitness=[0.0, r.choice([0.0, 1.0])], **kw)
    elif world == "close":
        fit = SimpleFitness(**kw)
    elif world == "tree" or r.random() < .3:
        fit = GPFitness(bloat_weight=r.choice([0, .125, .5, 2, 5.0, 40]), **kw)
    else:
        fit = SimpleFitness(fitness=r.choice([None, None, 0, 0.0, 1.5]), **kw)
    if world == "tree":
        typed = r.random() < .4
        c = r.choice([FullCreator, GrowCreator])
        if typed:
            ck = dict(function_set=[add2floats, sub2floats], terminal_set={"x": float, "y": float}, erc_range=(-1.0, 1.0), root_type=float)
        else:
            ck = dict(function_set=[f_add, f_neg, f_mul], terminal_set=["x", "y", 1, 0], erc_range=r.choice([None, (-3, 3)]))
        i = c(init_depth=(1, 3), update_parents=up, **ck).create_individuals(1, hib)[0]
        i.fitness = fit
        return i, ("typed" if typed else "untyped")
    n = WIDTH[0]
    if isinstance(fit, GPFitness):
        t, b = BitStringVector, (0, 1)
    else:
        t, b = r.choice([(BitStringVector, (0, 1)), (IntVector, (-3, 3)), (FloatVector, ([(0.0, 1.0), (-1.0, 2.0), (0.0, 4.0), (5.0, 6.0)] * 130)[:n])])
    kw = dict(length=n, update_parents=up)
    if t is not BitStringVector:
        kw["bounds"] = b
    i = t(fit, **kw)
    i.set_vector([i.get_random_number_in_bounds(k) for k in range(n)])
    return i, t.__name__


def op_for(r, grp, k):
    p = r.choice([1.0, 1.0, 1.0, 0.0])
    ops = [lambda: AlwaysFails(probability=p, arity=k, attempts=2)]
    if grp in ("typed", "untyped"):
        ops += [lambda: SubtreeMutation(probability=p, arity=k, init_depth=(1, 2)), lambda: ERCMutation(probability=p, arity=k)]
        if k >= 2:
            ops += [lambda: SubtreeCrossover(probability=p, arity=k)] * 2
    else:
        if k == 2:
            ops += [lambda: VectorKPointsCrossover(probability=p, arity=2, k=2)] * 2
        if grp == "BitStringVector":
            ops += [lambda: BitStringVectorFlipMutation(probability=p, arity=k), lambda: BitStringVectorNFlipMutation(probability=p, arity=k, n=3)]
        elif grp == "IntVector":
            ops += [lambda: IntVectorNPointMutation(probability=p, arity=k, n=2)]
        else:
            ops += [lambda: FloatVectorUniformNPointMutation(probability=p, arity=k, n=2),
                    lambda: FloatVectorGaussOnePointMutation(probability=p, arity=k, sigma=1e9, attempts=2)]
    return r.choice(ops)(), p


def ep(rec):
    r = rec.rnd
    P = Pool(rec)
    WIDTH[0] = r.choice([4] * 16 + [12, 40, r.choice([130, 300]), r.choice([300, 520])])
    world, hib = r.choice(["vec", "vec", "tree", "tree", "nsga", "mixed", "close"]), r.random() < .5
    CODE.clear()
    if world == "close":
        base = r.choice([[2**53 + k for k in range(4)], [-2**60 - k for k in range(4)], [1.0 + k * 2.0**-52 for k in range(4)], [10.0**300 * k for k in (-1, 1, 2, 3)],
                         [1e9 + k * 2.0**-20 for k in range(4)], [1e-300 * k for k in (-2, 0, 1, 3)], [0.1 + 0.2, 0.3, 0.30000000000000016, 0.7]])
        CODE.update({v: k for k, v in enumerate(sorted(base))})
    grp = []
    for _ in range(r.choice([1, 2, 3])):
        i, g = new_ind(r, world, hib)
        if r.random() < .25:     # what a user keeps with an individual is the individual's
            i._notes, i.extra = [1, 2], dict(a=1)
        P.inds.append(i)
        grp.append(g)
    P.ev("New", own=[own(i) for i in P.inds])
    VALS = list(CODE)[:r.choice([2, 4])] * 6 if CODE else [0, 0.0, 1, -1.5, 2.125, 100, float("inf"), float("-inf"), np.float64(0), np.float64(3.5), -0.0, np.int64(0)]
    for _ in range(r.randint(8, 25)):
        k = r.choice(["set", "set", "set", "inval", "read", "cmp", "cmp", "cmp", "clone", "clone", "copy", "op", "op", "op", "touch"] if not CODE or r.random() < .4 else ["set", "set", "cmp", "cmp", "cmp"])
        i = r.randrange(len(P.inds))
        x = P.inds[i]
        if k == "set":
            v = [r.choice(VALS[:6]) for _ in range(2)] if isinstance(x.fitness, NSGA2Fitness) else r.choice(VALS)
            _, exc = rec.guard("", x.fitness.set_fitness, v)
            P.ev("Set", i=i + 1, v=vec(v), exc=exc)
        elif k == "inval":
            r.choice([x.set_fitness_not_evaluated, x.fitness.set_not_evaluated])()
            P.ev("Inval", i=i + 1)
        elif k == "read":
            aug = r.random() < .5
            v, exc = rec.guard("", x.get_augmented_fitness if aug else x.get_pure_fitness)
            P.ev("Read", i=i + 1, aug=aug, v=vec(v), exc=exc)
        elif k == "cmp":
            j = r.randrange(len(P.inds))
            y = P.inds[j]
            which = r.choice(["better", "better", "equal"])
            if r.random() < .1:
                a, exc = rec.guard("", x.better_than, None)
                P.ev("CmpNone", ans=bool(a), exc=exc)
                continue
            if which == "better":
                a, exc = rec.guard("", x.better_than, y) if r.random() < .5 else rec.guard("", x.fitness.better_than, x, y.fitness, y)
            else:
                a, exc = rec.guard("", x.fitness.equal_to, x, y.fitness, y)
            P.ev("Cmp", i=i + 1, j=j + 1, which=which, ans=bool(a), exc=exc)
        elif k == "clone" and len(P.inds) < 6:
            P.inds.append(x.clone())
            grp.append(grp[i])
            P.ev("Clone", i=i + 1, own=own(P.inds[-1]))
        elif k == "copy" and len(P.inds) < 6:
            how = r.choice(["deepcopy", "pickle"])
            P.inds.append(copy.deepcopy(x) if how == "deepcopy" else pickle.loads(pickle.dumps(x)))
            grp.append(grp[i])
            P.ev("Copy", i=i + 1, how=how)
        elif k == "op":
            same = [j for j in range(len(P.inds)) if grp[j] == grp[i]]
            r.shuffle(same)
            n = r.choice([1, 2, 2, 3])
            if len(same) < n:
                n = 1
            js = same[:n]
            op, p = op_for(r, grp[i], n)
            op.apply_operator([P.inds[j] for j in js])
            P.ev("Op", **{"is": [j + 1 for j in js]}, name=type(op).__name__, applied=p > 0, failing=isinstance(op, AlwaysFails))
        elif k == "touch":
            what = r.choice(["sel", "ops", "gen", "genome", "genome", "par", "env", "env"])
            if what == "sel":
                x.selected_by.append("s")
            elif what == "ops":
                x.applied_operators.append("o")
            elif what == "par" and x.update_parents:
                x.parents.append(-5)
            elif what == "env" and isinstance(getattr(x, "bounds", None), list):
                x.bounds[r.randrange(len(x.bounds))] = (-r.randint(1, 9), 10 + r.random())
            elif what == "env" and hasattr(x, "terminal_set"):
                if grp[i] == "untyped" and r.random() < .5:
                    x.function_set.append(r.choice([UF.f_sub, UF.f_abs, UF.f_max]))
                else:
                    x.terminal_set["new%d" % len(x.terminal_set)] = float if grp[i] == "typed" else None
            elif what == "genome":
                if hasattr(x, "vector"):
                    x.set_cell_value(r.randrange(len(x.vector)), 1000 + r.random())
                else:
                    t = [n for n in x.tree if isinstance(n, TerminalNode)]
                    r.choice(t).value = 1000 + r.random()
            else:
                x.gen += 1
            P.ev("Touch", i=i + 1, what=what)
    if CODE:
        for x in P.inds:
            x.fitness.set_fitness(r.choice(VALS))
            P.ev("Set", i=P.inds.index(x) + 1, v=vec(x.fitness.fitness), exc="")
        for i, x in enumerate(P.inds):
            for j, y in enumerate(P.inds):
                a, exc = rec.guard("", x.better_than, y)
                P.ev("Cmp", i=i + 1, j=j + 1, which="better", ans=bool(a), exc=exc)


def ep_bloat(rec):
    """close fitness values, any sizes: what the weight makes of them"""
    r = rec.rnd
    P = Pool(rec)
    CODE.clear()
    hib, w = r.random() < .5, r.choice([0, .125, .5, 2, 40])
    sizes = r.choice([(1, 2, 3, 5), (4, 9, 30, 33), (100, 130, 255, 257), (200, 511, 513, 700), (900, 1023, 1025, 2000), (1, 8, 64, 512, 4000)])
    for _ in range(r.choice([2, 3, 4])):
        fit = GPFitness(bloat_weight=w if r.random() < .8 else r.choice([0, .125, 1]), higher_is_better=hib)
        if r.random() < .5:
            i = BitStringVector(fit, r.choice(sizes))
            i.set_vector([r.randint(0, 1) for _ in range(i.length if hasattr(i, "length") else r.choice(sizes))])
        else:
            i = Tree(fit, function_set=[f_neg, f_add], terminal_set=["x"])
            n = r.choice(sizes)
            i.tree = [FunctionNode(f_neg) for _ in range(n - 1)] + [TerminalNode("x")]
        P.inds.append(i)
    P.ev("New", own=[own(i) for i in P.inds])
    base = r.choice([0, 3.5, -100])
    for i, x in enumerate(P.inds):
        v = base if r.random() < .7 else base + w * (size(x) - size(P.inds[0])) * (1 if hib else -1) + r.choice([0, 0, .125, -.125])
        x.fitness.set_fitness(v)
        P.ev("Set", i=i + 1, v=vec(v), exc="")
        v, exc = rec.guard("", x.get_augmented_fitness)
        P.ev("Read", i=i + 1, aug=True, v=vec(v), exc=exc)
    for i, x in enumerate(P.inds):
        for j, y in enumerate(P.inds):
            for which, f in (("better", lambda: x.better_than(y)), ("equal", lambda: x.fitness.equal_to(x, y.fitness, y))):
                a, exc = rec.guard("", f)
                P.ev("Cmp", i=i + 1, j=j + 1, which=which, ans=bool(a), exc=exc)


def main():
    run([ep_bloat] * (600 if THOROUGH else 50) + [ep] * (6000 if THOROUGH else 500))


main()
