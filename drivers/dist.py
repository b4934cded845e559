"""How often the random choices of operators and creators give each outcome (C32)."""
from evolib import *
from eckity.base.typed_functions import add2floats, sub2floats, neg_float, not2bools, and2bools
from eckity.base.untyped_functions import f_abs, f_iflte0, f_max
from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, IntVector
from eckity.genetic_operators.mutations.vector_n_point_mutation import VectorNPointMutation
from eckity.evaluators import SimpleIndividualEvaluator
from typedlib import isless, pick


def leq(a: float, b: float) -> bool:
    return a <= b


def pick2(c: bool, a: float, b: float) -> float:
    return b if c else a


U, F, B = "none", "float", "bool"
PYT = {F: float, B: bool}
SIG = {f_add: ([U, U], U), f_max: ([U, U], U), f_neg: ([U], U), f_abs: ([U], U), f_iflte0: ([U] * 3, U), add2floats: ([F, F], F), sub2floats: ([F, F], F),
       neg_float: ([F], F), isless: ([F, F], B), leq: ([F, F], B), pick: ([B, F, F], F), pick2: ([B, F, F], F), not2bools: ([B], B)}


def fnode(f):
    return dict(s=f.__name__, args=SIG[f][0], ret=SIG[f][1])


BIG = 4 if THOROUGH else 1
M = 4000 * BIG
PS = [(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 10), (9, 10), (1, 3), (2, 3), (1, 2)]
WIDE = (-2 ** 40, 2 ** 40)


def vec(kind, n, lo=0, hi=1, values=None, listed=False):
    cls = dict(bit=BitStringVector, int=IntVector, float=FloatVector)[kind]
    return cls(fitness=SimpleFitness(), length=n, bounds=[(lo, hi)] * n if listed else (lo, hi),
               vector=list(values) if values is not None else [0 if kind != "float" else 0.0] * n)


def changed(old, new):
    return [i + 1 for i, (a, b) in enumerate(zip(old, new)) if a != b]


def tally(it):
    d = {}
    for x in it:
        d[tuple(x)] = d.get(tuple(x), 0) + 1
    return dict(sets=[list(k) for k in d], counts=list(d.values()))


def xpoints(op, n):
    """where a crossover of two vectors without equal cells switches"""
    a, b = vec("int", n, 0, 1, [0] * n), vec("int", n, 0, 1, [1] * n)
    op.apply_operator([a, b])
    return [i for i in range(1, n) if a.vector[i - 1] != a.vector[i]]


def ep_rate(rec):
    r = rec.rnd
    p = r.choice(PS)
    q = p[0] / p[1]
    kind = r.choice(["flip", "nflip", "ints", "int1", "floats", "float1", "gauss", "gauss1", "cross", "own", "own", "own", "sub", "erc", "scross"])
    n, lst = r.choice([1, 2, 5]), r.random() < .5
    inds = None
    if kind in ("flip", "nflip"):
        op = BitStringVectorFlipMutation(probability=q) if kind == "flip" else BitStringVectorNFlipMutation(probability=q, probability_for_each=1.0, n=r.randint(1, n))
        inds = [vec("bit", n, listed=lst)]
    elif kind in ("ints", "int1"):
        op = IntVectorNPointMutation(probability=q, n=r.randint(1, n)) if kind == "ints" else IntVectorOnePointMutation(probability=q, probability_for_each=1.0)
        inds = [vec("int", n, *WIDE, listed=lst)]
    elif kind in ("floats", "float1", "gauss", "gauss1"):
        op = dict(floats=lambda: FloatVectorUniformNPointMutation(probability=q, n=r.randint(1, n)), float1=lambda: FloatVectorUniformOnePointMutation(probability=q),
                  gauss=lambda: FloatVectorGaussNPointMutation(probability=q, n=r.randint(1, n)), gauss1=lambda: FloatVectorGaussOnePointMutation(probability=q))[kind]()
        inds = [vec("float", n, -50.0, 50.0, listed=lst)]
    elif kind == "cross":
        n += 2
        op = VectorKPointsCrossover(probability=q, k=r.randint(1, n - 1))
        inds = [vec("bit", n), vec("bit", n, 0, 1, [1] * n)]
    elif kind == "own":
        op = VectorNPointMutation(probability=q, arity=r.choice([1, 2, 3, 4, 5]), n=1, mut_val_getter=lambda v, i: v.bit_flip(i))
        inds = [vec("bit", n) for _ in range(op.arity)]
    else:
        t = [FunctionNode(f_add), TerminalNode("x"), TerminalNode(1.0)]
        mk = lambda ts: Tree(fitness=SimpleFitness(), function_set=[f_add, f_neg], terminal_set=ts)
        op = dict(sub=SubtreeMutation, erc=ERCMutation, scross=SubtreeCrossover)[kind](probability=q)
        if kind == "sub":
            op.init_depth = (0, 0)
        inds = [mk(["z"])] if kind == "sub" else [mk(["x", 1.0])] if kind == "erc" else [mk(["x", 1.0, "y"]), mk(["x", 1.0, "y"])]
        start = [t, [FunctionNode(f_neg), TerminalNode("y")]][:len(inds)]
        get, put = (lambda i: [str(getattr(x, "value", "f" + str(len(i.tree)))) for x in i.tree]), (lambda i, o: setattr(i, "tree", fresh(o)))
    if kind not in ("sub", "erc", "scross"):
        start = [list(i.vector) for i in inds]
        get, put = (lambda i: list(i.vector)), (lambda i, o: i.set_vector(list(o)))
    hits = []
    for _ in range(M // 2):
        for i, o in zip(inds, start):
            put(i, o)
        old = [get(i) for i in inds]
        op.apply_operator(list(inds))
        hits.append(int([get(i) for i in inds] != old))
    rec.ev("Rate", p=p, hits=hits, what=kind)


def ep_rare(rec):
    """small and large probabilities are not rounded"""
    r = rec.rnd
    p = r.choice([(1, 250), (1, 225), (3, 700), (249, 250), (996, 1000)])
    q, m = p[0] / p[1], 45000 * (4 if THOROUGH else 1)
    kind = r.choice(["own", "own", "nflip"])
    x = vec("bit", 1)
    if kind == "own":
        op = VectorNPointMutation(probability=q, arity=1, n=1, mut_val_getter=lambda v, i: v.bit_flip(i))
    else:
        op = BitStringVectorNFlipMutation(probability=1.0, probability_for_each=q, n=1)
    hits, last = 0, 0
    for _ in range(m):
        op.apply_operator([x])
        x.applied_operators = []
        hits += x.vector[0] != last
        last = x.vector[0]
    rec.ev("Rare", p=p, m=m, x=hits, what=kind)


def fresh(tree):
    return [FunctionNode(n.function) if isinstance(n, FunctionNode) else TerminalNode(n.value, n.node_type) for n in tree]


def ep_cells(rec):
    r = rec.rnd
    n = r.choice([2, 3, 4, 5, 7, 10])
    k = min(n, r.choice([1, 1, 2, 2, 3] if n < 7 else [1, 2]))
    kind = r.choice(["flip", "nflip", "ints", "floats", "gauss", "cross", "own", "float1", "gauss1"])
    lst = r.random() < .5
    if kind == "cross":
        op = VectorKPointsCrossover(k=k)
        rec.ev("Cells", n=n, k=k, what=kind, **tally(xpoints(op, n + 1) for _ in range(M)))
        return
    if kind in ("flip", "float1", "gauss1"):
        k = 1
    op, x = dict(flip=lambda: (BitStringVectorFlipMutation(), vec("bit", n, listed=lst)),
                 nflip=lambda: (BitStringVectorNFlipMutation(probability_for_each=1.0, n=k), vec("bit", n, listed=lst)),
                 ints=lambda: (IntVectorNPointMutation(n=k), vec("int", n, *WIDE, listed=lst)),
                 floats=lambda: (FloatVectorUniformNPointMutation(n=k), vec("float", n, -1.0, 3.0, listed=lst)),
                 float1=lambda: (FloatVectorUniformOnePointMutation(), vec("float", n, -1.0, 3.0, listed=lst)),
                 gauss=lambda: (FloatVectorGaussNPointMutation(n=k), vec("float", n, -50.0, 50.0, listed=lst)),
                 gauss1=lambda: (FloatVectorGaussOnePointMutation(), vec("float", n, -50.0, 50.0, listed=lst)),
                 own=lambda: (VectorNPointMutation(n=k, mut_val_getter=lambda v, i: v.bit_flip(i)), vec("bit", n)))[kind]()
    start = list(x.vector)

    def one():
        x.set_vector(list(start))
        op.apply_operator([x])
        return changed(start, x.vector)
    rec.ev("Cells", n=n, k=k, what=kind, **tally(one() for _ in range(M)))


def ep_flips(rec):
    r = rec.rnd
    n = r.choice([1, 2, 3, 4])
    p = r.choice([(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 3), (1, 10), (9, 10)])
    if r.random() < .5:
        k = r.randint(1, n)
        op, x = BitStringVectorNFlipMutation(probability_for_each=p[0] / p[1], n=k), vec("bit", n, values=[r.randint(0, 1) for _ in range(n)], listed=r.random() < .5)
    else:
        k = n
        op, x = IntVectorOnePointMutation(probability=1.0, probability_for_each=p[0] / p[1]), vec("int", n, *WIDE, listed=r.random() < .5)
    start = list(x.vector)

    def one():
        x.set_vector(list(start))
        op.apply_operator([x])
        return changed(start, x.vector)
    rec.ev("Flips", n=n, k=k, p=p, **tally(one() for _ in range(M)))


def ep_noise(rec):
    ep_bins(rec, "erc")


def ep_bins(rec, src=None):
    r = rec.rnd
    src = src or r.choice(["create", "mutate", "gauss", "gauss", "erc"])
    w = r.choice([1, 2, 3])
    rows = []
    if src in ("create", "mutate"):
        kind = r.choice(["bit", "int", "float"])
        if kind == "float":
            n = r.choice([2, 4])
            lo = r.choice([0.0, -1.0, -8.0, 100.0])
            bs = [(lo + i, lo + i + r.choice([1.0, 8.0, .5])) for i in range(w)]
        else:
            n = 2 if kind == "bit" else r.choice([2, 3, 5])
            bs = [(0, 1) if kind == "bit" else (i - 3, i - 4 + n) for i in range(w)]
        if r.random() < .5:
            bs = [bs[0]] * w
            bounds = bs[0]
        else:
            bounds = bs
        bin_ = lambda v, b: v - b[0] + 1 if kind != "float" else min(n, int(n * (v - b[0]) / (b[1] - b[0])) + 1)
        cr = dict(bit=GABitStringVectorCreator, int=GAIntVectorCreator, float=GAFloatVectorCreator)[kind](length=w, bounds=bounds)
        if src == "create":
            vs = [i.vector for i in cr.create_individuals(M, True)]
        else:
            ind = cr.create_individuals(1, True)[0]
            op = dict(bit=lambda: VectorNPointMutation(n=w), int=lambda: IntVectorNPointMutation(n=w), float=lambda: FloatVectorUniformNPointMutation(n=w))[kind]()
            vs = []
            for _ in range(M):
                op.apply_operator([ind])
                vs.append(list(ind.vector))
        rec.ev("Bins", kind="uniform", n=n, what=src + kind, rows=[[bin_(v, b) for v, b in zip(x, bs)] for x in vs])
        return
    n, mu, sigma = 6, r.choice([0.0, 0.0, 2.5, -7.0]), r.choice([1.0, .25, 10.0])
    bin_ = lambda d: min(6, max(1, math.floor((d - mu) / sigma) + 4))
    if src == "gauss":
        cls, kw = (FloatVectorGaussNPointMutation, dict(n=w)) if r.random() < .6 or w > 1 else (FloatVectorGaussOnePointMutation, {})
        op = cls(mu=mu, sigma=sigma, **kw)
        v0 = [r.choice([-5.0, 0.0, 3.0]) for _ in range(w)]
        ind = vec("float", w, -1e6, 1e6, v0)
        for _ in range(M):
            ind.set_vector(list(v0))
            op.apply_operator([ind])
            rows.append([bin_(b - a) for a, b in zip(v0, ind.vector)])
    else:
        t = Tree(fitness=SimpleFitness(), function_set=[f_add], terminal_set=["x", 2.0])
        op = ERCMutation(mu=mu, sigma=sigma)
        c = r.choice([-4.0, 0.5, 30.0, 30, -2, 0])
        for _ in range(M):
            t.tree = [FunctionNode(f_add), TerminalNode("x"), TerminalNode(c)]
            op.apply_operator([t])
            rows.append([bin_(t.tree[2].value - c)])
    rec.ev("Bins", kind="gauss", n=n, what=src, rows=rows)


GS = [([f_add, f_neg], {"x": U, "y": U}, U), ([f_neg, f_abs], {"x": U, "y": U, "z": U}, U), ([f_add], {"x": U}, U), ([f_neg], {"x": U, "y": U}, U),
      ([neg_float, isless, not2bools], {"x": F, "b": B}, B), ([neg_float, pick, isless, not2bools], {"x": F, "b": B, "y": F}, F), ([neg_float, not2bools], {"x": F, "b": B}, F)]


def ep_made(rec):
    r = rec.rnd
    fs, ts, root = r.choice(GS)
    how = r.choice(["grow", "grow", "grow", "full"])
    small = all(len(fnode(f)["args"]) == 1 for f in fs)
    mn, mx = r.choice([(0, 1), (1, 1), (1, 2), (0, 2), (2, 2)] + ([(0, 3), (2, 3)] if small else [])) if small or len(fs) == 1 or (root == U and r.random() < .3) else r.choice([(0, 1), (1, 1)])
    p = r.choice([(1, 2), (1, 4), (3, 4), (1, 3), (0, 1), (1, 1)]) if r.random() < .7 else (1, 2)
    kw = dict(init_depth=(mn, mx), function_set=list(fs), terminal_set=list(ts) if root == U else {t: PYT[x] for t, x in ts.items()})
    if root != U:
        kw["root_type"] = PYT[root]
    if how == "grow" and not (p == (1, 2) and r.random() < .7):
        kw["p_prune"] = p[0] / p[1]
    c = dict(grow=GrowCreator, full=FullCreator)[how](**kw)
    node = lambda x: fnode(x.function) if isinstance(x, FunctionNode) else dict(s=x.value, args=[], ret=getattr(x.node_type, "__name__", "none"))
    d = {}
    for _ in range(M // 50):
        for ind in c.create_individuals(50, True):
            t = [node(x) for x in ind.tree]
            e = d.setdefault(str(t), [t, 0])
            e[1] += 1
    rec.ev("Made", how=how, fs=[fnode(f) for f in fs], ts=[dict(s=t, args=[], ret=x) for t, x in ts.items()], root=root, mn=mn, mx=mx, p=p,
           trees=[x for x, _ in d.values()], counts=[x for _, x in d.values()])


def ep_leaves(rec):
    r = rec.rnd
    nt, rng = r.choice([0, 1, 2, 4]), r.choice([0, 1, 2, 5])
    if nt + rng == 0:
        nt = 3
    ts = ["x", "y", "z", 77][:nt]
    typed = r.random() < .5
    ty = type(77) if typed else None
    kw = dict(function_set=[f_neg], terminal_set=ts)
    if typed:
        def twice(a: int) -> int:
            return a + a
        kw = dict(function_set=[twice], terminal_set={t: int for t in ts}, root_type=int)
    if rng:
        lo = r.choice([-3, 0, 5])
        kw["erc_range"] = (lo, lo + rng - 1)
    c = [0] * (nt + rng)
    how = r.choice(["source", "full"])
    if how == "source":
        t = Tree(fitness=SimpleFitness(), **kw)
        vals = (t.random_terminal(ty).value for _ in range(M))
    else:
        vals = (i.tree[0].value for i in FullCreator(init_depth=(0, 0), **kw).create_individuals(M, True))
    for v in vals:
        j = ts.index(v) if v in ts else nt + v - lo if rng and type(v) is int and lo <= v < lo + rng else None
        if j is None:
            c.append(1)
        else:
            c[j] += 1
    rec.ev("Leaves", nt=nt, r=rng, counts=c)


def ep_points(rec):
    r = rec.rnd
    typed = r.random() < .5
    g1, g2 = (([add2floats, isless, pick], {"x": float, "b": bool}), ([sub2floats, leq, pick2], {"y": float, "c": bool})) if typed else \
             (([f_add, f_neg, f_iflte0], ["x", "b"]), ([f_max, f_abs], ["y", "c"]))
    root = dict(root_type=float) if typed else {}
    one = r.random() < .5
    node = lambda n: fnode(n.function) if isinstance(n, FunctionNode) else dict(s=str(n.value), args=[], ret=getattr(n.node_type, "__name__", "none"))

    def tree(g):
        while True:
            i = GrowCreator(init_depth=r.choice([(1, 2), (2, 2), (1, 3)]), function_set=g[0], terminal_set=g[1], **root).create_individuals(1, True)[0]
            if 3 <= len(i.tree) <= 8:
                return i
    if one:
        x = tree(g1)
        z = ["z1", "z2"] if not typed else {"z1": float, "z2": bool}
        if r.random() < .5:
            eq = [n for n in x.tree if isinstance(n, TerminalNode)]
            for n in eq:
                n.value = next(m for m in eq if m.node_type is n.node_type).value
        o = x.tree
        i = Tree(fitness=SimpleFitness(), function_set=g1[0], terminal_set=z, **root)
        op = SubtreeMutation(init_depth=(0, 0))
        rows = []
        for _ in range(M):
            i.tree = fresh(o)
            op.apply_operator([i])
            rows.append([next((j + 1 for j, n in enumerate(i.tree) if isinstance(n, TerminalNode) and n.value in ("z1", "z2")), 0)])
        rec.ev("Points", trees=[[node(n) for n in o]], typed=typed, rows=rows)
        return
    while True:
        x, y = tree(g1), tree(g2)
        tx, ty = ([node(n)["ret"] for n in t.tree[1 if typed else 0:]] for t in (x, y))
        if set(tx) <= set(ty):
            break
    ox, oy = x.tree, y.tree
    both = list(g1[0]) + list(g2[0])
    for i in (x, y):
        i.function_set = both
        i.terminal_set = {**(g1[1] if typed else {t: None for t in g1[1]}), **(g2[1] if typed else {t: None for t in g2[1]})}
    mine = lambda n, g: (n.function in g[0]) if isinstance(n, FunctionNode) else n.value in g[1]
    op = SubtreeCrossover()
    rows = []
    for _ in range(M):
        x.tree, y.tree = fresh(ox), fresh(oy)
        op.apply_operator([x, y])
        rows.append([next((j + 1 for j, n in enumerate(x.tree) if mine(n, g2)), 0), next((j + 1 for j, n in enumerate(y.tree) if mine(n, g1)), 0)])
    rec.ev("Points", trees=[[node(n) for n in t] for t in (ox, oy)], typed=typed, rows=rows)


def ep_consts(rec):
    r = rec.rnd
    k = r.randint(2, 5)
    o = []
    for j in range(k):
        o += ([FunctionNode(f_add)] if j < k - 1 else []) + [TerminalNode(r.choice([1.0, 1.0, 2.5, "x"]))]
    if not any(isinstance(n, TerminalNode) and n.value != "x" for n in o):
        o[-1] = TerminalNode(1.0)
    t = Tree(fitness=SimpleFitness(), function_set=[f_add], terminal_set=["x", 1.0, 2.5])
    op = ERCMutation(sigma=20)
    rows = []
    for _ in range(M):
        t.tree = fresh(o)
        op.apply_operator([t])
        rows.append(next((j + 1 for j, (a, b) in enumerate(zip(o, t.tree)) if isinstance(a, TerminalNode) and a.value != b.value), 0))
    rec.ev("Consts", num=[isinstance(n, TerminalNode) and n.value != "x" for n in o], rows=rows)


class Zero(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return 0.0


def ep_sequence(rec):
    """a whole breeding step: which operators were applied to whom"""
    r = rec.rnd
    k = r.choice([1, 2, 3])
    ps = [r.choice([p for p in PS if p[1] <= 4]) for _ in range(k)]
    ar = [r.choice([1, 1, 2]) for _ in range(k)]
    ops = [VectorNPointMutation(probability=p[0] / p[1], arity=a, cell_selector=lambda v, i=i: [i], mut_val_getter=lambda v, j: v.bit_flip(j))
           for i, (p, a) in enumerate(zip(ps, ar))]
    n = 1600 * (4 if THOROUGH else 1)
    sub = Subpopulation(Zero(), creators=GAVectorCreator(length=k, gene_creator=lambda i, j: 0), population_size=n, operators_sequence=ops,
                        selection_methods=[(TournamentSelection(tournament_size=2), 1)], elitism_rate=0.0)
    pop = Population([sub])
    pop.create_population_individuals()
    for i in sub.individuals:
        i.set_fitness_not_evaluated()
        i.fitness.set_fitness(0.0)
    SimpleBreeder().apply_breed(pop)
    rows = [list(i.vector) for i in sub.individuals]
    # operators over pairs are applied to both or to none
    one = [i for i, a in enumerate(ar) if a == 1]
    two = [i for i, a in enumerate(ar) if a == 2]
    out = [[x[i] for i in two] + [x[i] for i in one] + [y[i] for i in one] for x, y in zip(rows[::2], rows[1::2])]
    rec.ev("Sequence", p=[ps[i] for i in two] + [ps[i] for i in one] * 2, rows=out, split=[j + 1 for j, (x, y) in enumerate(zip(rows[::2], rows[1::2])) if any(x[i] != y[i] for i in two)])


q = 2 if THOROUGH else 1
run([ep_rare] * (6 * q) + [ep_rate] * (24 * q) + [ep_cells] * (16 * q) + [ep_flips] * (12 * q) + [ep_bins] * (16 * q) + [ep_noise] * (12 * q) + [ep_made] * (16 * q) + [ep_leaves] * (8 * q) +
    [ep_points] * (12 * q) + [ep_consts] * (5 * q) + [ep_sequence] * (8 * q))
