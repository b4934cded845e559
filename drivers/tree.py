"""GP trees: creation, subtree crossover/mutation, constant mutation, execution (C13-C16)."""
from treelib import *
import math


def ep_ops(rec):
    r = rec.rnd
    cfg = Cfg(r, same=r.random() < .06)
    rec.ev("Cfg", cfg=cfg.log())
    big = r.random() < .06
    n = r.choice([2, 3, 4])
    inds = []
    while len(inds) < n:
        inds += creator(r, cfg).create_individuals(r.randint(1, n - len(inds)), r.random() < .5)
    snap = lambda: [cfg.full(i, rec) for i in inds]
    rec.ev("New", pool=snap())
    keep = {}
    for _ in range(r.randint(4, 14) if not big else 20):
        k = r.choice(["Cross", "Cross", "Mut", "Mut", "Erc", "Exec", "clone"])
        p = 0.0 if r.random() < .05 else 1.0
        m = r.choice([2, 2, 2, 3, n]) if k == "Cross" else r.choice([1, 1, 2])
        m = min(m, n)
        js = r.sample(range(n), m)
        if max(len(i.tree) for i in inds) > (60 if not big else 300):
            break
        extra = {}
        if k == "Cross":
            op = SubtreeCrossover(probability=p, arity=m, attempts=r.choice([1, 1, 3]))
        elif k == "Mut":
            extra = dict(zip(("mn", "mx"), r.choice([(1, 1), (1, 2), (0, 1), (0, 0), (2, 2), (2, 3)] if not big else [(3, 4), (2, 4)])))
            # an operator keeps its creator between uses
            kk = tuple(extra.values())
            if kk not in keep or r.random() < .3:
                keep[kk] = SubtreeMutation(init_depth=kk, attempts=r.choice([1, 2]))
            op = keep[kk]
            op.probability = p
        elif k == "Erc":
            op = ERCMutation(probability=p, arity=m, sigma=r.choice([1, .1, 10]))
        elif k == "clone":
            j, i = r.randrange(n), r.randrange(n)
            if i != j:
                inds[j] = inds[i].clone()
            rec.ev("New0", pool=snap())
            continue
        else:
            do_exec(rec, cfg, r.choice(inds))
            continue
        op.apply_operator([inds[j] for j in js])
        rec.ev(k, **{"is": [j + 1 for j in js]}, applied=p > 0, pool=snap(), **extra)


def intval(x):
    x = float(x)
    return int(x) if x == int(x) and abs(x) < 2**31 else -777777777


def do_exec(rec, cfg, ind):
    """execute on random inputs"""
    r = rec.rnd
    if cfg.k == "same":
        return
    if any(isinstance(n, TerminalNode) and isinstance(n.value, Number) and n.value != int(n.value) for n in ind.tree) or ind.depth() > 6:
        return
    before = [(id(n), getattr(n, "value", None)) for n in ind.tree]
    names = [t for t in cfg.terms if isinstance(t, str)]
    given = list(names)
    z = r.random()
    if z < .12 and given:
        given.remove(r.choice(given))
    elif z < .24:
        given.append(r.choice(["q", "x9"]))
    if z < .05 and given:
        given = given[1:] + ["q"]
    r.shuffle(given)
    ty = lambda nm: cfg.terms.get(nm, "none")
    val = lambda nm: (r.random() < .5) if ty(nm) == B else r.randint(-5, 5) if ty(nm) != F else float(r.randint(-5, 5))
    nrow = r.choice([1, 1, 3])
    rows = [[val(nm) for nm in given] for _ in range(nrow)]
    isvar = any(isinstance(n, TerminalNode) and isinstance(n.value, str) for n in ind.tree)
    if nrow == 1 and r.random() < .7:
        kw = {nm: rows[0][j] for j, nm in enumerate(given)}
    else:
        kw = {nm: np.array([row[j] for row in rows]) for j, nm in enumerate(given)}
        if not isvar:
            return
    kw0 = {a: np.copy(b) for a, b in kw.items()}
    res, exc = rec.guard("", ind.execute, **kw)
    out = [] if exc else [intval(v) for v in np.broadcast_to(res, (nrow,))]
    same = before == [(id(n), getattr(n, "value", None)) for n in ind.tree] and all(np.array_equal(kw[a], kw0[a]) for a in kw)
    rec.ev("Exec", tree=cfg.tree(ind.tree, rec, raw=True), names=given, rows=[[int(v) for v in row] for row in rows],
           res=out, exc=exc, same=same, array=False, dims=0)


class ACfg(Cfg):
    """a configuration over the columns of an array"""

    def __init__(self, r, ncol):
        self.k, self.root, self.typed, self.erc = "a", None, False, None
        cols = [f"x{i}" for i in range(ncol)]
        if r.random() < .6:
            self.funs = r.choice([["f_add", "f_sub", "f_neg"], ["f_add", "f_mul", "f_iflte"], ["third", "f_sub"], ["f_iflte0", "f_ifgt0", "f_max", "f_min", "f_abs"],
                                  ["f_ifgt", "f_sub"], ["f_if_then_else", "f_sub"]])
            self.terms = {t: "none" for t in cols + r.choice([[], [], [1], [2, 0], [-3]])}
            self.erc = r.choice([None, None, (-3, 3)])
        else:
            self.funs = r.choice([["add2floats", "sub2floats"], ["iflte_floats", "neg_float", "max2floats"]])
            self.terms = {t: F for t in cols + r.choice([[], [3.0]])}
            self.typed, self.root = True, F
        self.own = {key(t): ty for t, ty in self.terms.items()}


def ep_array(rec):
    r = rec.rnd
    ncol = r.choice([1, 2, 3, 5, 11, r.choice([11, 12, 25])])
    cfg = ACfg(r, ncol)
    rec.ev("Cfg", cfg=cfg.log())
    inds = creator(r, cfg, depth=r.choice([(0, 2), (1, 3), (1, 2), (0, 1)])).create_individuals(6, True)
    if r.random() < .3:
        SubtreeCrossover(arity=2).apply_operator(inds[:2])
    if r.random() < .5:      # a tree that is one constant, one variable
        v = r.choice(list(cfg.terms) + [7])
        v = float(v) if cfg.typed and not isinstance(v, str) else v
        inds[5].tree = [TerminalNode(v, float if cfg.typed else None)]
    for ind in inds:
        if ind.depth() > (3 if "f_mul" in cfg.funs else 8):
            continue
        for nrow in r.sample([0, 1, 2, 5, 40] + ([] if r.random() < .95 else [200]), 2):
            nc = ncol if r.random() < .85 else r.choice([max(0, ncol - 1), ncol + 1])
            X = np.array([[r.randint(-5, 5) for _ in range(nc)] for _ in range(nrow)]).reshape(nrow, nc)
            X = X.astype(r.choice([float, float, int, np.float32]))
            if r.random() < .3:
                X = np.asfortranarray(X)
            X0 = X.copy()
            before = [(id(n), getattr(n, "value", None)) for n in ind.tree]
            res, exc = rec.guard("", ind.execute, X)
            same = before == [(id(n), getattr(n, "value", None)) for n in ind.tree] and np.array_equal(X, X0)
            rec.ev("Exec", tree=cfg.tree(ind.tree, rec, raw=True), names=[f"x{i}" for i in range(nc)],
                   rows=[[int(v) for v in row] for row in X0], res=[] if exc or np.ndim(res) != 1 else [intval(v) for v in res],
                   exc=exc, same=same, array=True, dims=0 if exc else np.ndim(res))
    # an empty tree
    e = inds[0].clone()
    e.empty_tree()
    X = np.ones((2, ncol))
    res, exc = rec.guard("", e.execute, X)
    rec.ev("Exec", tree=[], names=[f"x{i}" for i in range(ncol)], rows=[[1] * ncol] * 2, res=[], exc=exc, same=True, array=True, dims=0)
    bad, exc = rec.guard("", inds[1].execute, r.choice(["abc", 3, [[1.0] * ncol]]))
    rec.ev("Exec", tree=[], names=[], rows=[], res=[], exc=exc, same=True, array=True, dims=0)


# functions that build terms, for any kind of values
class Term(tuple):
    pass


def s0():
    return Term(("s0",))


def s1(a):
    return Term(("s1", a))


def s2(a, b):
    return Term(("s2", a, b))


def s3(a, b, c):
    return Term(("s3", a, b, c))


def s4(a, b, c, d):
    return Term(("s4", a, b, c, d))


def s6(a, b, c, d, e, f):
    return Term(("s6", a, b, c, d, e, f))


def p2(a: P, b: P) -> P:
    return Term(("p2", a, b))


def p1(a: Q) -> P:
    return Term(("p1", a))


def q3(a: P, b: Q, c: P) -> Q:
    return Term(("q3", a, b, c))


# functions without a name of their own
L1, L2, L2b = lambda a: Term(("l1", a)), lambda a, b: Term(("l2", a, b)), lambda a, b: Term(("l2b", a, b))


def twins():
    def s2(a, b):
        return Term(("other s2", a, b))
    return s2


TWIN = twins()
NAMES = {L1: "l1", L2: "l2", L2b: "l2b", TWIN: "other s2"}
ARITY = dict(s0=0, s1=1, s2=2, s3=3, s4=4, s6=6, p2=2, p1=1, q3=3, l1=1, l2=2, l2b=2)
ARITY["other s2"] = 2
THINGS = [lambda r: None, lambda r: "text", lambda r: "x", lambda r: "", lambda r: (1, 2), lambda r: 2**53 + r.randint(1, 99), lambda r: -2**80 + r.randint(1, 99),
          lambda r: float("nan"), lambda r: float("inf"), lambda r: -0.0, lambda r: r.random(), lambda r: 1e308, lambda r: True, lambda r: 1, lambda r: 1.0,
          lambda r: 1j, lambda r: [1, r.randint(0, 9)], lambda r: np.float32(.1), lambda r: np.int8(-128), lambda r: dict(a=1), lambda r: b"x",
          lambda r: frozenset([r.randint(0, 9)]), lambda r: 2**31 + r.randint(0, 9), lambda r: -2**63 - r.randint(0, 9), lambda r: 10**400 + r.randint(0, 9)]


def ep_term(rec):
    r = rec.rnd
    rec.ev("Cfg", cfg=dict(x=0))
    names = r.sample(["x", "y", "x1", "x10", "x2", "f_add", "pos", "X", "n1"], r.choice([1, 2, 3, 5]))
    typed = r.random() < .4
    if typed:
        ty = [r.choice([P, Q]) for _ in names]
        args = dict(function_set=r.sample([p2, p1, q3], 3), terminal_set={**dict(zip(names, ty)), "zp": P, "zq": Q}, root_type=r.choice([P, Q]))
        names = names + ["zp", "zq"]
    else:
        const = [r.choice([2**53 + 1, 2**64 + 7, -2**70 - 1, 0.1, 1e308, -1e-308, 2.5, 0, -1, 10**400, float("inf"), 2**31, -2**31 - 5]) for _ in range(r.choice([0, 1, 2, 3]))]
        args = dict(function_set=r.sample([s0, s1, s2, s3, s4, s6], r.choice([1, 2, 3])) + [s1], terminal_set=names + const,
                    erc_range=r.choice([None, (2**60, 2**60 + 1000), (-2**90, -2**90 + 3), (1e-300, 1e-299), (-3, 3)]))
        if r.random() < .3:
            args["function_set"] = r.choice([[L1, L2, L2b], [L2b, L2, s2], [s2, TWIN], [TWIN, s1, s2], [L2, L1]])
    inds = GrowCreator(init_depth=r.choice([(0, 2), (1, 2), (1, 3), (2, 2)]), **args).create_individuals(5, True)
    if r.random() < .5:
        SubtreeCrossover(arity=2).apply_operator(inds[:2])
    it = Interner()
    tok = lambda v: it((type(v).__name__, repr(v)))
    fun = lambda n: it(("function", n))

    def flat(x):
        if isinstance(x, Term):
            return [fun(x[0])] + [t for y in x[1:] for t in flat(y)]
        return [tok(x)]
    for ind in inds:
        if len(ind.tree) > 150:
            continue
        kw = {n: r.choice(THINGS)(r) for n in names}
        before = [(id(n), repr(getattr(n, "value", None))) for n in ind.tree]
        kw0 = [(k, id(v), repr(v)) for k, v in kw.items()]
        nodes = []
        for n in ind.tree:
            if isinstance(n, FunctionNode):
                nm = NAMES.get(n.function) or n.function.__name__
                nodes.append(dict(k="f", t=fun(nm), s="", n=ARITY[nm]))
            else:
                var = isinstance(n.value, str)
                nodes.append(dict(k="v" if var else "c", t=0 if var else tok(n.value), s=n.value if var else "", n=0))
        res, exc = rec.guard("", ind.execute, **kw)
        same = before == [(id(n), repr(getattr(n, "value", None))) for n in ind.tree] and kw0 == [(k, id(v), repr(v)) for k, v in kw.items()]
        rec.ev("Term", tree=nodes, names=list(kw), vals=[tok(v) for v in kw.values()], res=[] if exc else flat(res), exc=exc, same=same)


ODD = [float("nan"), float("inf"), float("-inf"), -0.0, 1e308, -1e-308, 2.0**53 + 2, .1, 1e-9, 7.0]


def ep_cells(rec):
    """arrays of any numbers under functions that only move them, and missing values under arithmetic"""
    r = rec.rnd
    ncol = r.choice([1, 2, 3, 4])
    cfg = ACfg(r, ncol)
    move = r.random() < .5
    cfg.typed, cfg.root, cfg.erc = False, None, None
    cfg.funs = ["third"] if move else r.choice([["f_add", "f_sub", "f_neg"], ["f_mul", "f_neg"], ["third", "f_sub"]])
    cfg.terms = {f"x{i}": "none" for i in range(ncol)}
    if not move and r.random() < .3:
        cfg.terms[2] = "none"
    cfg.own = {key(t): ty for t, ty in cfg.terms.items()}
    rec.ev("Cfg", cfg=cfg.log())
    it = Interner()
    many = r.random() < .05
    for ind in creator(r, cfg, depth=r.choice([(0, 2), (1, 2), (0, 1)])).create_individuals(2 if many else 4, True):
        if ind.depth() > 3:
            continue
        nrow = r.choice([1, 2, 5, 30]) if not many else r.choice([260, 1030, 2050])
        cell = (lambda: r.choice(ODD)) if move else lambda: float("nan") if r.random() < .3 else float(r.randint(-5, 5))
        X = np.array([[cell() for _ in range(ncol)] for _ in range(nrow)])
        if move and r.random() < .3:
            X = np.array([[r.choice([2**53 + 1, 2**62 + 3, -2**63, 5, -1]) for _ in range(ncol)] for _ in range(nrow)], dtype=np.int64)
        code = (lambda v: 1000 + it((type(v).__name__, repr(v.item())))) if move else lambda v: -999999 if math.isnan(v) else intval(v)
        X0 = X.copy()
        res, exc = rec.guard("", ind.execute, X)
        rec.ev("Exec", tree=cfg.tree(ind.tree, rec, raw=True), names=[f"x{i}" for i in range(ncol)], rows=[[code(v) for v in row] for row in X0],
               res=[] if exc or np.ndim(res) != 1 else [code(v) for v in res], exc=exc, same=X.tobytes() == X0.tobytes(), array=True, dims=0 if exc else np.ndim(res))


def ep_make(rec):
    r = rec.rnd
    cfg = Cfg(r, same=r.random() < .06)
    rec.ev("Cfg", cfg=cfg.log())
    for _ in range(3):
        how = r.choice(["full", "grow", "half", "half"])
        big = len(cfg.funs) and any(len(SIG[f][0]) > 2 for f in cfg.funs)
        d = r.choice([(0, 0), (0, 1), (1, 1), (1, 2), (2, 3), (1, 3), (2, 2), (0, 2)] + ([] if big else [(1, 4), (3, 4), (4, 4)] + ([(0, 6), (5, 5), (3, 6)] if r.random() < .2 else [])))
        if all(len(SIG[f][0]) == 1 for f in cfg.funs) and r.random() < .5:
            d = r.choice([(9, 9), (14, 14), (0, 20), (10, 18), (18, 20), (30, 33), (3, 40)])
        elif not big and how != "half" and r.random() < .03:
            d = r.choice([(7, 7), (8, 8), (5, 8)])
        p = 50
        if how == "half":
            k = 2 * (d[1] - d[0] + 1)
            n = r.choice([r.randint(1, 3 * k), k, k - 1, 2 * k, 2 * k + 1, 3 * k - 1])
            if n == 0:
                n = 1
            p = r.choice([50, 50, 0, 100])
            kw = cfg.creator_args()
            gc = None
            if p != 50:
                gc = GrowCreator(init_depth=r.choice([d, (1, 1), (2, 4)]), p_prune=p / 100, **kw)
            fc = FullCreator(init_depth=r.choice([d, (1, 1), (0, 4)]), **kw) if r.random() < .4 else None
            c = HalfCreator(grow_creator=gc, full_creator=fc, init_depth=d, **kw)
            for _ in range(r.choice([1, 2])):       # the same creator may be used again
                inds, exc = rec.guard("", c.create_individuals, n, True)
                rec.ev("Refused", n=n, mn=d[0], mx=d[1], exc=exc)
        else:
            n = r.randint(1, 12) if d[1] < 7 or d[1] > 8 else 2
            if how == "full":
                c = FullCreator(init_depth=d, **cfg.creator_args())
            else:
                p = r.choice([50, 20, 0, 100])
                c = GrowCreator(init_depth=d, p_prune=p / 100, **cfg.creator_args())
            inds = c.create_individuals(n, True)
        if inds is None:
            continue
        ts = [cfg.tree(i.tree, rec) for i in inds]
        rec.ev("Made", how=how, n=n, mn=d[0], mx=d[1], p=p, trees=[[dict(s=x["s"], args=x["args"], ret=x["ret"]) for x in t] for t in ts], many=False)
        if sum(len(t) for t in ts) < 400:
            rec.ev("New", pool=[cfg.full(i, rec) for i in inds])


def ep_many(rec):
    r = rec.rnd
    cfg = Cfg(random.Random(5))
    while cfg.k != "un" or cfg.funs[0] != "f_add" or len(cfg.funs) < 3:
        cfg = Cfg(r)
    rec.ev("Cfg", cfg=cfg.log())
    for d in ((1, 3), (0, 2), (2, 4)):
        inds = GrowCreator(init_depth=d, **cfg.creator_args()).create_individuals(600, True)
        if d == (2, 4):
            inds = [i for i in inds if len(i.tree) < 60]
        rec.ev("Made", how="grow", n=len(inds), mn=d[0], mx=d[1], p=50, many=True,
               trees=[[dict(s=x["s"], args=x["args"], ret=x["ret"]) for x in cfg.tree(i.tree, rec)] for i in inds])


def main():
    q = 12 if THOROUGH else 1
    eps = []
    if PROP in ("C13", "C15"):
        eps += [ep_ops] * (500 * q) + [ep_make] * (60 * q)
    elif PROP == "C14":
        eps += [ep_make] * (250 * q) + [ep_many] * 2 * q + [ep_ops] * (150 * q)
    else:
        eps += [ep_array] * (250 * q) + [ep_ops] * (150 * q) + [ep_term] * (150 * q) + [ep_cells] * (80 * q)
    run(eps)


main()
