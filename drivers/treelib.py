"""Grammars over library and user functions, and the recording of trees."""
from evolib import *
from numbers import Number
from eckity.base import typed_functions as TF


# functions of a user, typed and untyped
def isless(a: float, b: float) -> bool:
    return np.less(a, b)


def pick(c: bool, a: float, b: float) -> float:
    return np.where(c, a, b)


def scaled(a: float, b: int, c: bool) -> float:
    return np.where(c, np.multiply(a, b), a)


def twice(a: int) -> int:
    return np.multiply(a, 2)


def addi(a: int, b: int) -> int:
    return np.add(a, b)


def islessi(a: int, b: int) -> bool:
    return np.less(a, b)


def tofloat(a: int) -> float:
    return np.multiply(a, 1.0)


def third(a, b, c):
    return c


# functions without arguments
def seven():
    return 7


def half() -> float:
    return 0.5


def one() -> int:
    return 1


def yes() -> bool:
    return True


# names are spelt as they are
def Sum_Of(a, b):
    return a


def F2(a: float, b: float) -> float:
    return b


def __hidden__(a):
    return a


# two types of the same name
P = type("Quantity", (), {})
Q = type("Quantity", (), {})


def padd(a: P, b: P) -> P:
    return a


def ptoq(a: P) -> Q:
    return a


def qtop(a: Q, b: P) -> P:
    return b


def qneg(a: Q) -> Q:
    return a


F, I, B = "float", "int", "bool"
# the true signature of every function used, written down independently of the code's reflection
SIG = {"f_add": 2, "f_sub": 2, "f_neg": 1, "f_mul": 2, "f_iflte": 4, "f_max": 2, "f_min": 2, "f_abs": 1, "f_iflte0": 3, "f_ifgt0": 3,
       "f_ifgt": 4, "third": 3, "f_if_then_else": 3}
SIG = {k: (["none"] * n, "none") for k, n in SIG.items()}
SIG.update({"Sum_Of": (["none"] * 2, "none"), "F2": ([F, F], F), "__hidden__": (["none"], "none"), "add2floats": ([F, F], F), "sub2floats": ([F, F], F), "neg_float": ([F], F), "iflte_floats": ([F] * 4, F), "max2floats": ([F, F], F),
            "isless": ([F, F], B), "pick": ([B, F, F], F), "scaled": ([F, I, B], F), "and2bools": ([B, B], B), "or2bools": ([B, B], B), "not2bools": ([B], B),
            "if_then_else3bools": ([B, B, B], B), "twice": ([I], I), "addi": ([I, I], I), "islessi": ([I, I], B), "tofloat": ([I], F),
            "if_then_else3ints": ([I, I, I], I), "seven": ([], "none"), "half": ([], F), "one": ([], I), "yes": ([], B),
            "padd": (["P", "P"], "P"), "ptoq": (["P"], "Q"), "qtop": (["Q", "P"], "P"), "qneg": (["Q"], "Q")})
PYT = {F: float, I: int, B: bool, "P": P, "Q": Q}


def fn(name):
    return globals().get(name) or getattr(UF, name, None) or getattr(TF, name)


def key(v):
    return (type(v).__name__, v)


def made(args, ret):
    """a typed function of that signature"""
    ab = {F: "f", I: "i", B: "b"}
    name = "u_" + "".join(ab[x] for x in args) + "_" + ab[ret]
    if name not in SIG:
        ps = ["p%d" % k for k in range(len(args))]
        exec(f"def {name}({', '.join(f'{p}: {x}' for p, x in zip(ps, args))}) -> {ret}:\n    return {ps[-1]}", globals())
        SIG[name] = (list(args), ret)
    return name


def made_grammar(r, cfg, most=5):
    """functions of any signatures over three types"""
    cfg.k, cfg.root, ts = "made", r.choice([F, I, B]), [F, I, B]
    while True:
        rets = ts + [r.choice(ts) for _ in range(r.choice([0, 1, 2]))]
        sigs = [([r.choice(ts) for _ in range(r.choice([1, 2, 3, 3, 4, 5][:most + 1]))], x) for x in rets]
        if {a for s, _ in sigs for a in s} == set(ts):
            break
    cfg.funs = list(dict.fromkeys(made(*s) for s in sigs))
    cfg.terms = {"i": I, "x": F, "b": B, 4: I, 0.5: F, False: B}
    cfg.erc, cfg.typed = r.choice([None, None, (0, 3), (-2.0, 2.0)]), True
    cfg.own = {key(t): ty for t, ty in cfg.terms.items()}
    return cfg


class Cfg:
    def __init__(self, r, same=False):
        k = "same" if same else r.choice(["un", "un", "un1", "fl", "fb", "ib", "ifb", "if", "made"])
        self.k, self.root = k, None
        self.erc = None
        if k == "made":
            made_grammar(r, self, 3)
        elif k == "un":
            self.funs = r.choice([["f_add", "f_sub", "f_neg"], ["f_add", "f_iflte", "third"], ["f_neg"], ["f_sub"]])
            self.terms = {t: "none" for t in r.choice([["x", "y", 1, 0], ["x"], ["x", "y", "z"], ["x", 2.5]])}
            self.erc = r.choice([None, (-1.0, 1.0), (-3, 3), (0, 0), (2.0, 2.0)])
        elif k == "un1":
            self.funs, self.terms = ["f_add", "f_neg", "third"], {"x": "none", -1: "none"}
        elif k == "fl":
            self.funs = r.choice([["add2floats", "sub2floats", "neg_float"], ["iflte_floats", "max2floats"], ["add2floats", "sub2floats", "neg_float"], ["neg_float"]])
            self.terms = {"x": F, "y": F, 2.5: F}
            self.erc, self.root = r.choice([None, (-1.0, 1.0)]), F
        elif k == "fb":
            self.funs = ["add2floats", "pick", "isless", "and2bools", "not2bools"]
            self.terms = {"x": F, "b": B, True: B}
            self.erc, self.root = r.choice([None, (0.0, 1.0), (-5.0, 5.0)]), r.choice([F, B])
        elif k == "ib":
            self.funs = ["twice", "addi", "islessi", "if_then_else3bools"]
            self.terms = {"i": I, True: B, False: B}
            self.erc, self.root = r.choice([None, (0, 3), (-9, 9)]), r.choice([I, B])
        elif k == "ifb":
            self.funs = r.choice([["twice", "addi", "tofloat", "add2floats", "pick", "isless", "not2bools"], ["scaled", "twice", "tofloat", "isless"]])
            self.terms = {"i": I, "x": F, "b": B, 4: I, 0.5: F, False: B}
            self.erc, self.root = r.choice([None, (0, 3), (-2.0, 2.0)]), r.choice([F, I, B])
        elif k == "same":
            self.funs = ["padd", "ptoq", "qtop", "qneg"]
            self.terms = {"a": "P", "b": "P", "c": "Q"} if r.random() < .5 else {"c": "Q", "d": "Q", "a": "P"}
            self.root = r.choice(["P", "Q"])
        else:
            self.funs = ["addi", "tofloat", "add2floats"]
            self.terms = {"i": I, "x": F, 1.0: F}
            self.erc, self.root = r.choice([None, (0, 2), (-2.0, 2.0)]), r.choice([F, I])
        self.typed = self.root is not None
        self.own = {key(t): ty for t, ty in self.terms.items()}

    def creator_args(self):
        d = dict(function_set=[fn(f) for f in self.funs], erc_range=self.erc)
        if self.typed:
            d.update(terminal_set={t: PYT[ty] for t, ty in self.terms.items()}, root_type=PYT[self.root])
        else:
            d.update(terminal_set=list(self.terms))
        return d

    def log(self):
        return dict(typed=self.typed, root=self.root or "none", erc=self.erc is not None,
                    erctype=type(self.erc[0]).__name__ if self.erc else "none",
                    lo=Num(self.erc[0]) if self.erc else 0, hi=Num(self.erc[1]) if self.erc else 0,
                    vars=[t for t in self.terms if isinstance(t, str)])

    def node(self, n, rec, raw=False):
        ty = "P" if n.node_type is P else "Q" if n.node_type is Q else getattr(n.node_type, "__name__", str(n.node_type)).replace("None", "none")
        if isinstance(n, FunctionNode):
            nm = n.function.__name__
            a, ret = SIG[nm]
            return dict(s=nm, k="f", args=a, ret=ret, ty=ty, u=rec.uid(n), num=False, vt="", v=0, own=nm in self.funs)
        v = n.value
        kk = key(v)
        own = kk in self.own
        var = isinstance(v, str)
        num = isinstance(v, Number) and not isinstance(v, bool)
        return dict(s=str(v) if var else "const", k="v" if var else "c", args=[], ret=self.own[kk] if own else ty, ty=ty, u=rec.uid(n),
                    num=num, vt="" if var else type(v).__name__.replace("float64", "float"), v=0 if var else (int(v) if raw else Num(v)), own=own)

    def tree(self, t, rec, raw=False):
        return [self.node(n, rec, raw) for n in t]

    def full(self, ind, rec):
        try:
            sz, dp = ind.size(), ind.depth()
        except Exception as ex:
            sz, dp = -1, -1
        return dict(t=self.tree(ind.tree, rec), size=sz, depth=dp)


def with_constants(r, cfg):
    """some grammars have functions without arguments"""
    if r.random() < .3:
        tys = set(cfg.terms.values())
        cfg.funs = cfg.funs + [f for f in ("seven", "half", "one", "yes") if SIG[f][1] in tys]
    if r.random() < .2:
        cfg.funs = cfg.funs + [f for f in ("Sum_Of", "F2", "__hidden__") if SIG[f][1] in set(cfg.terms.values())]
    return cfg


def creator(r, cfg, depth=None, how=None):
    how = how or r.choice(["full", "grow", "grow"])
    d = depth or r.choice([(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (0, 2), (0, 1), (0, 0), (3, 4)])
    if cfg.k in ("ifb", "fb", "made") and d[1] > 3:
        d = (1, 3)
    c = FullCreator if how == "full" else GrowCreator
    kw = {} if how == "full" else dict(p_prune=r.choice([.5, .5, .2, .8, 0.0, 1.0]))
    return c(init_depth=d, **cfg.creator_args(), **kw)
