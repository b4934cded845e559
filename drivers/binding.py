"""Functions and tables as they are declared (C36)."""
from drv import *
import copy, pickle
import numpy as np
from eckity.base.utils import arity
from eckity.fitness import SimpleFitness
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode, Tree
from eckity.genetic_encodings.gp.tree.utils import create_terminal_set, generate_args, get_func_types, get_return_type

THIS = sys.modules[__name__]


class Box:
    pass


class Sub(int):
    pass


TYPES = {"int": int, "float": float, "bool": bool, "str": str, "Box": Box, "Sub": Sub, "list": list}
NAMES = {v: k for k, v in TYPES.items()}
NAMES[None] = "none"
NAMES[type(None)] = "NoneType"


def nm(t):
    return NAMES.get(t, str(t))


def func(r):
    """a function of a user: its declared types (none: undeclared), and how they were written down"""
    n = r.choice([0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 7])
    how = r.choice(["all", "all", "none", "some", "but one", "only one"])
    ts = [r.choice(list(TYPES)) for _ in range(n + 1)]
    if r.random() < .3:
        ts = [ts[0]] * (n + 1)
    if how == "none":
        ts = ["none"] * (n + 1)
    if how == "some":
        ts = [t if r.random() < .5 else "none" for t in ts]
    if how == "but one":
        ts[r.randrange(n + 1)] = "none"
    if how == "only one":
        j = r.randrange(n + 1)
        ts = [t if i == j else "none" for i, t in enumerate(ts)]
    names = r.sample(["a", "b", "c", "x0", "z", "value", "ret", "self_", "n", "k"], n)
    text = r.random() < .3            # declarations written as text
    dflt = r.choice([0, 0, 0, 1, n])
    ps = []
    for i, p in enumerate(names):
        t = ts[i]
        ps.append(p + ("" if t == "none" else f": {t!r}" if text else f": {t}") + (" = 3" if i >= n - dflt else ""))
    if n and r.random() < .1:
        ps.append("/") if r.random() < .5 else ps.insert(r.randrange(1, n + 1), "/")
    ret = "" if ts[n] == "none" else f" -> {ts[n]!r}" if text else f" -> {ts[n]}"
    src = f"def f({', '.join(ps)}){ret}:\n    return 1"
    ns = vars(THIS)
    exec(src, ns)
    return ns.pop("f"), ts[:n], ts[n], src


def ep_func(rec):
    r = rec.rnd
    for _ in range(12):
        if r.random() < .1:
            n = r.choice([1, 2, 3])
            f, ps, ret = [lambda a: a, lambda a, b: b, lambda a, b, c: c][n - 1], ["none"] * n, "none"
        else:
            f, ps, ret, _ = func(r)
        again = r.random() < .3
        if again:       # asking twice gives the same
            get_func_types(f), arity(f)
        types = [nm(t) for t in get_func_types(f)]
        try:
            node = FunctionNode(f)
            out, refused = [nm(node.node_type), node.n_args], False
            if r.random() < .3:
                t = copy.deepcopy(node)
                out = [nm(t.node_type), t.n_args]
        except ValueError:
            out, refused = [], True
        rec.ev("Func", f=dict(params=ps, ret=ret), arity=arity(f), types=types, ret=nm(get_return_type(f)), node=out, refused=refused)


DT = ["int64", "int32", "int8", "uint8", "float64", "float32", "bool", "<U3"]
PYT = {"i": "int", "u": "int", "f": "float", "b": "bool", "U": "str"}


def table(r, rows=None):
    m = r.choice([1, 1, 2, 3, 5, 9, 10, 11, 12, 23])
    n = rows or r.choice([1, 1, 2, 3, m, 8, 40])
    dt = np.dtype(r.choice(DT))
    vals = [[r.choice([0, 1, 2, 3, 5, 100]) if dt.kind in "iu" else r.choice([0.5, -1.5, 3.0, 2.0, 0.0]) if dt.kind == "f" else r.choice([True, False]) if dt.kind == "b" else r.choice(["a", "bc", ""])
             for _ in range(m)] for _ in range(n)]
    X = np.array(vals, dtype=dt)
    v = r.random()
    if v < .15:
        X = np.asfortranarray(X)
    elif v < .3:
        X = np.array(vals, dtype=dt).T.copy().T
    elif v < .4:
        X = np.repeat(X, 2, axis=0)[::2]
    return X, m


def show(v):
    v = v.item() if hasattr(v, "item") else v
    return f"{type(v).__name__}:{v!r}"


def ep_mixed(rec):
    """a table of columns of different types"""
    r = rec.rnd
    for _ in range(4):
        m, n = r.choice([1, 2, 3, 5, 11]), r.choice([1, 2, 7])
        kinds = [r.choice(["int64", "int8", "float64", "float32", "bool", "<U3"]) for _ in range(m)]
        X = np.empty((n, m), dtype=object)
        for j, k in enumerate(kinds):
            for i, v in enumerate(np.array([r.choice([0, 1, 2]) for _ in range(n)]).astype(k)):
                X[i, j] = v
        keep = X.copy()
        tab = [[show(v) for v in row] for row in X]
        ts = create_terminal_set(X, typed=True)
        rec.ev("Names", m=m, typed=True, out=[str(t) for t in ts], types=[nm(t) for t in ts.values()], coltypes=[PYT[np.dtype(k).kind] for k in kinds])
        args = generate_args(X)
        rec.ev("Args", m=m, names=list(args), cols=[[show(v) for v in c] for c in args.values()], table=tab, unchanged=bool((X == keep).all()))


def ep_table(rec):
    r = rec.rnd
    for _ in range(4):
        X, m = table(r)
        keep = X.copy()
        tab = [[show(v) for v in row] for row in X]
        typed = r.random() < .5
        ts = create_terminal_set(X, typed=True) if typed else create_terminal_set(X)
        rec.ev("Names", m=m, typed=typed, out=[str(t) for t in ts], types=[nm(t) for t in ts.values()] if typed else [], coltypes=[PYT[X.dtype.kind]] * m)
        args = generate_args(X)
        rec.ev("Args", m=m, names=list(args), cols=[[show(v) for v in c] for c in args.values()], table=tab, unchanged=bool((X == keep).all()))
        # a tree over these names, evaluated over the whole table
        n = r.choice([1, 2, 3, 4])
        want = [r.randrange(m) for _ in range(n)]

        def echo(*cols):
            out = np.empty(len(X), dtype=object)
            for i in range(len(X)):
                out[i] = [show(c[i]) for c in cols]
            return out
        f = [None, lambda a: echo(a), lambda a, b: echo(a, b), lambda a, b, c: echo(a, b, c), lambda a, b, c, d: echo(a, b, c, d)][n]
        t = Tree(SimpleFitness(), function_set=[f], terminal_set=list(ts))
        t.add_tree(FunctionNode(f))
        for w in want:
            t.add_tree(TerminalNode(list(ts)[w]))
        res = t.execute(**args)
        rec.ev("Row", table=tab, want=[w + 1 for w in want], res=[list(x) for x in res])


def f1(a, b):
    return a


def f2(a, b):
    return a


def g1(a: int, b: int) -> int:
    return a


def g2(a: int) -> int:
    return a


def named(n, k):
    def f(a, b):
        return k
    f.__name__ = n
    return f


FUNS = [f1, f2, g1, g2, named("f1", 1), named("h", 2), named("h", 3), lambda a, b: a, lambda a, b: b]
VALUES = ["x0", "x1", 1, 2, 0.5, "1", (1, 2), True, 1.0, 0, False, 0.0, None]


def ep_nodes(rec):
    r = rec.rnd
    pool = []
    for _ in range(8):
        if r.random() < .5:
            f = r.choice(FUNS)
            n = FunctionNode(f)
            pool.append((n, dict(kind="f", what=f"f{FUNS.index(f)}", type=nm(n.node_type))))
        else:
            j = r.randrange(len(VALUES))
            t = r.choice([None, None, int, float])
            pool.append((TerminalNode(VALUES[j], t), dict(kind="t", what=str(j), type=nm(t))))
    for a, da in pool:
        for b, db in pool:
            rec.ev("Nodes", a=da, b=db, eq=bool(a == b), ne=bool(a != b))


k = 10 if THOROUGH else 1
eps = [ep_func] * (60 * k) + [ep_table] * (60 * k) + [ep_mixed] * (12 * k) + [ep_nodes] * (8 * k)
run(eps)
