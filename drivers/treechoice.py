"""Which trees creation, subtree mutation, crossover and constant mutation can produce (C28)."""
import itertools, math
from evolib import *
from numbers import Number
from eckity.base.typed_functions import *
from eckity.base.untyped_functions import f_abs, f_iflte0, f_iflte
import typedlib
from typedlib import isless, pick


def twice(a: int) -> int:
    return a + a


def addi(a: int, b: int) -> int:
    return a + b


def islessi(a: int, b: int) -> bool:
    return a < b


F, I, B, U = "float", "int", "bool", "none"
SIG = {f_add: ([U, U], U), f_sub: ([U, U], U), f_neg: ([U], U), f_abs: ([U], U), f_iflte0: ([U] * 3, U), f_iflte: ([U] * 4, U),
       iflte_floats: ([F] * 4, F),
       add2floats: ([F, F], F), sub2floats: ([F, F], F), neg_float: ([F], F), isless: ([F, F], B), pick: ([B, F, F], F), not2bools: ([B], B),
       and2bools: ([B, B], B), twice: ([I], I), addi: ([I, I], I), islessi: ([I, I], B)}
PYT = {F: float, I: int, B: bool, U: None}


def fnode(f):
    a, ret = SIG[f]
    return dict(s=f.__name__, args=a, ret=ret)


class G:
    """A grammar: functions, terminals with types, range of constants."""

    def __init__(self, funs, terms, root=U, erc=None):
        self.funs, self.terms, self.root, self.erc = funs, terms, root, erc
        self.typed = root != U

    def args(self):
        d = dict(function_set=self.funs, erc_range=self.erc)
        if self.typed:
            d.update(terminal_set={t: PYT[ty] for t, ty in self.terms.items()}, root_type=PYT[self.root])
        else:
            d.update(terminal_set=list(self.terms))
        return d

    def leafs(self, ty):
        """terminals of a type with probabilities; constants are classes of values"""
        own = [(self.sym(t), 1.0) for t, x in self.terms.items() if x == ty]
        if self.erc and (not self.typed or type(self.erc[0]).__name__ == ty):
            k = 4 if type(self.erc[0]) is float else self.erc[1] - self.erc[0] + 1
            cl = [f"e{j}" for j in (range(4) if k == 4 and type(self.erc[0]) is float else range(self.erc[0], self.erc[1] + 1))]
            own += [(c, 1.0 / k) for c in cl]
        tot = sum(w for _, w in own)
        if not own:
            return []
        return [(s, w / tot) for s, w in own]

    def sym(self, v, const=False):
        if isinstance(v, str):
            return v
        for t in self.terms:
            if type(t) is type(v) and t == v:
                return "k" + str(v)
        if self.erc and isinstance(v, Number) and type(v) is type(self.erc[0]):
            lo, hi = self.erc
            if not lo <= v <= hi:
                return "out"
            return f"e{v}" if type(lo) is int else f"e{min(3, int(4 * (v - lo) / (hi - lo)))}"
        return "other"

    def ts(self):
        tys = {U} if not self.typed else {F, I, B}
        return [dict(s=s, args=[], ret=ty) for ty in tys for s, _ in self.leafs(ty)]

    def fs(self):
        return [fnode(f) for f in self.funs]

    def node(self, n):
        if isinstance(n, FunctionNode):
            return fnode(n.function)
        return dict(s=self.sym(n.value), args=[], ret=getattr(n.node_type, "__name__", "none"))

    def dist(self, ty, d, mn, mx, p=.5):
        """(probability) of every tree, as made by random choices at every node; sizes only matter through it"""
        out = []
        pt = 1.0 if d >= mx else 0.0 if d < mn else p
        if pt > 0:
            out += [pt * w for _, w in self.leafs(ty)]
        if pt < 1:
            fs = [f for f in self.funs if SIG[f][1] == ty]
            for f in fs:
                parts = [self.dist(a, d + 1, mn, mx, p) for a in SIG[f][0]]
                if math.prod(len(x) for x in parts) > 4000:
                    raise OverflowError
                out += [(1 - pt) / len(fs) * math.prod(c) for c in itertools.product(*parts)]
        return out


GS = [lambda: G([f_add, f_neg], {"x": U, "y": U}), lambda: G([f_add], {"x": U, 1: U}), lambda: G([f_neg, f_abs], {"x": U}, erc=(-1, 1)),
      lambda: G([f_sub, f_neg], {"x": U}, erc=(0, 1)), lambda: G([f_neg], {"x": U, "y": U, 2: U}, erc=(0.0, 8.0)), lambda: G([f_iflte0], {"x": U, "y": U}),
      lambda: G([f_iflte], {"x": U, "y": U}), lambda: G([f_iflte, f_neg], {"x": U}), lambda: G([iflte_floats, neg_float], {"x": F}, root=F),
      lambda: G([f_sub, f_iflte0], {"x": U}), lambda: G([f_abs], {"x": U}, erc=(-3, 4)),
      lambda: G([neg_float, isless, not2bools, pick], {"x": F, "b": B}, root=F), lambda: G([isless, not2bools, neg_float], {"x": F, "b": B, True: B}, root=B),
      lambda: G([twice, addi, islessi, not2bools], {"i": I, "b": B}, root=I, erc=(0, 1)), lambda: G([islessi, twice], {"i": I}, root=B, erc=(-1, 0)),
      lambda: G([add2floats, neg_float], {"x": F, 1.0: F}, root=F), lambda: G([neg_float, isless], {"x": F}, root=B, erc=(-1.0, 1.0)),
      lambda: G([sub2floats], {"x": F}, root=F, erc=(0.0, 1.0))]
CAP = 12000 if not THOROUGH else 60000


def samples(k, pmin):
    """so many that missing any of k outcomes has probability below 1e-10"""
    return math.ceil((math.log(k) + 25) / pmin * 1.3)


def prep(r, depths, how):
    """a random grammar and depths whose trees can all be seen"""
    for _ in range(300):
        g, (mn, mx) = r.choice(GS)(), r.choice(depths)
        try:
            if how == "half":
                ds = [x for d in range(mn, mx + 1) for x in (("g", mn, d), ("f", d, d))]
                # a tree may come from several groups: the least likely of the most likely ones
                pr = [(g.dist(g.root, 0, a, b), 1 / len(ds)) for _, a, b in ds]
                k, pm = sum(len(x) for x, _ in pr), min(min(x) * w for x, w in pr)
            else:
                x = g.dist(g.root, 0, mx if how == "full" else mn, mx)
                k, pm = len(x), min(x)
            if not math.isclose(sum(x) if how != "half" else 1, 1):
                continue          # a type has no function or no terminal
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
        m = samples(k, pm)
        if m <= CAP and k <= 400:
            return g, mn, mx, m
    raise RuntimeError("no grammar fits")


def ep_make(how):
    def ep(rec):
        r = rec.rnd
        g, mn, mx, m = prep(r, [(0, 1), (1, 2), (0, 2), (1, 1), (2, 2), (1, 3), (2, 3), (0, 0), (0, 3)], how)
        cls = dict(full=FullCreator, grow=GrowCreator, half=HalfCreator)[how]
        c = cls(init_depth=(mn, mx), **g.args())
        seen = {}
        k = 2 * (mx - mn + 1)
        batch = 50 if how != "half" else k * r.choice([1, 3])
        for _ in range(-(-m // batch)):
            for ind in c.create_individuals(batch, True):
                t = [g.node(n) for n in ind.tree]
                seen.setdefault(str(t), t)
        rec.ev("Made", how=how, fs=g.fs(), ts=g.ts(), root=g.root, mn=mn, mx=mx, seen=list(seen.values()), m=m)
    return ep


def feasible(g, ty, d, mn, mx):
    """no type runs out of terminals or functions"""
    fs = [f for f in g.funs if SIG[f][1] == ty]
    return (d < mn or bool(g.leafs(ty))) and (d >= mx or bool(fs) and all(feasible(g, a, d + 1, mn, mx) for f in fs for a in set(SIG[f][0])))


def base_tree(g, r, depths, lo=1, hi=9):
    depths = [d for d in depths if feasible(g, g.root, 0, *d)]
    if not depths:
        return None
    for _ in range(200):
        ind = GrowCreator(init_depth=r.choice(depths), **g.args()).create_individuals(1, True)[0]
        if lo <= len(ind.tree) <= hi:
            return ind
    return None


def fresh(tree):
    return [FunctionNode(n.function) if isinstance(n, FunctionNode) else TerminalNode(n.value, n.node_type) for n in tree]


def ep_mut(rec):
    r = rec.rnd
    while True:
        g, (mn, mx) = r.choice(GS)(), r.choice([(0, 0), (0, 1), (1, 1), (0, 1)])
        ind = base_tree(g, r, [(1, 2), (1, 3), (2, 2), (0, 2)], 2, 7)
        if ind is None:
            continue
        if r.random() < .5:      # nodes that are equal to each other, and to the root
            eq = [n for n in ind.tree if isinstance(n, TerminalNode)]
            v = r.choice(eq)
            for n in eq:
                if n.node_type is v.node_type:
                    n.value = v.value
        try:
            tys = {g.node(n)["ret"] for n in ind.tree[1 if g.typed else 0:]}
            ds = [g.dist(ty, 0, mn, mx) for ty in tys]
        except (OverflowError, ZeroDivisionError, ValueError):
            continue
        if not all(d and math.isclose(sum(d), 1) for d in ds):
            continue
        n = len(ind.tree)
        m = samples(n * max(len(d) for d in ds), min(min(d) for d in ds) / n)
        if m <= CAP:
            break
    t = [g.node(x) for x in ind.tree]
    # the operator may be one over two trees
    two = r.random() < .3
    op = SubtreeMutation(init_depth=(mn, mx), probability=1.0)
    other = ind.clone()
    seen = {}
    orig = ind.tree
    for _ in range(m):
        ind.tree = fresh(orig)
        other.tree = fresh(orig)
        op.apply_operator([other, ind] if two else [ind])
        u = [g.node(x) for x in ind.tree]
        seen.setdefault(str(u), u)
    rec.ev("Mutated", fs=g.fs(), ts=g.ts(), t=t, typed=g.typed, mn=mn, mx=mx, seen=list(seen.values()), m=m)


def ep_cross(rec):
    r = rec.rnd
    while True:
        g = r.choice(GS)()
        k = r.choice([2, 2, 2, 3])
        inds = [base_tree(g, r, [(1, 2), (1, 3), (2, 2), (0, 2), (0, 1)], 1, 7 if k == 2 else 4) for _ in range(k)]
        if None in inds:
            continue
        if r.random() < .3:
            inds[1].tree = fresh(inds[0].tree)
        f = 1 if g.typed else 0
        tys = [[g.node(n)["ret"] for n in i.tree[f:]] for i in inds]
        ok = [ty for ty in set(tys[0]) if all(ty in x for x in tys)] if tys[0] else []
        if not ok:
            continue
        # first position uniform, the others uniform among those of its type
        pm = min(1 / len(tys[0]) / math.prod(x.count(ty) for x in tys[1:]) for ty in ok)
        m = samples(math.prod(len(x) for x in tys), pm)
        if m <= CAP:
            break
    origs = [i.tree for i in inds]
    pre = [[g.node(n) for n in t] for t in origs]
    op = SubtreeCrossover(probability=1.0, arity=k)
    seen = {}
    for _ in range(m):
        for i, o in zip(inds, origs):
            i.tree = fresh(o)
        op.apply_operator(list(inds))
        u = [[g.node(n) for n in i.tree] for i in inds]
        seen.setdefault(str(u), u)
    rec.ev("Crossed", trees=pre, typed=g.typed, seen=list(seen.values()), m=m)


def ep_const(rec):
    r = rec.rnd
    kind = r.choice(["un", "fl", "mix"])
    if kind == "un":
        g = G([f_add, f_neg, f_iflte0], {"x": U, 1: U, 2.5: U}, erc=r.choice([None, (-1.0, 1.0), (0, 2)]))
    elif kind == "fl":
        g = G([add2floats, neg_float, pick, isless], {"x": F, 2.0: F, "b": B, True: B}, root=F, erc=r.choice([None, (0.0, 1.0)]))
    else:
        g = G([addi, twice, islessi, not2bools], {"i": I, 3: I, "b": B, False: B}, root=I, erc=(0, 2))
    ind = None
    while ind is None:
        ind = base_tree(g, r, [(2, 3), (2, 2), (1, 3), (3, 3)], 3, 15)
    if r.random() < .5:
        cs = [n for n in ind.tree if isinstance(n, TerminalNode) and isinstance(n.value, Number) and type(n.value) is not bool]
        for n in cs:
            n.value = cs[0].value
    num = [isinstance(n, TerminalNode) and isinstance(n.value, Number) and type(n.value) is not bool for n in ind.tree]
    orig = ind.tree
    op = ERCMutation(probability=1.0, sigma=50)
    hit = set()
    if any(num):
        for _ in range(samples(len(num), 1 / sum(num) / 2)):
            ind.tree = fresh(orig)
            op.apply_operator([ind])
            hit |= {i + 1 for i, (a, b) in enumerate(zip(orig, ind.tree)) if isinstance(a, TerminalNode) and a.value != b.value}
    rec.ev("Consts", num=num, hit=sorted(hit))


q = 8 if THOROUGH else 1
run([ep_make("full")] * (16 * q) + [ep_make("grow")] * (24 * q) + [ep_make("half")] * (12 * q) + [ep_mut] * (36 * q) + [ep_cross] * (40 * q) + [ep_const] * (30 * q))
