"""Trees built and edited by hand (C31) and the text of trees (C30)."""
import re
from treelib import *
from eckity.fitness import GPFitness


def node(cfg, n):
    """symbol as printed, parameter types, own type"""
    if isinstance(n, FunctionNode):
        a, ret = SIG[n.function.__name__]
        return dict(s=n.function.__name__ + ("()" if not a else ""), args=a, ret=ret, fn=True)
    return dict(fn=False, s=str(n.value), args=[], ret=getattr(n.node_type, "__name__", "none"))


def nodes(cfg, ind):
    return [node(cfg, n) for n in ind.tree]


def new(cfg):
    a = cfg.creator_args()
    return Tree(fitness=GPFitness(), function_set=a["function_set"], terminal_set=a["terminal_set"], erc_range=cfg.erc, root_type=a.get("root_type"))


def log(cfg):
    ps = [[str(t)] if not cfg.typed else [str(t), ty] for t, ty in cfg.terms.items()]
    return dict(typed=cfg.typed, params=ps)


def rnd_node(r, cfg, ty=None):
    """a node of the grammar, of the type ty if there is one"""
    fs = [f for f in cfg.funs if ty is None or SIG[f][1] == ty]
    ts = [(t, x) for t, x in cfg.terms.items() if ty is None or x == ty]
    if ty in (None, F) and r.random() < .3:
        ts.append((r.choice([-1.5, 3.25, 0.0, 1e-07, -2e20]), "none" if not cfg.typed else F))
    if fs and (r.random() < .45 or not ts):
        return FunctionNode(fn(r.choice(fs)))
    if not ts:
        return None
    t, x = r.choice(ts)
    return TerminalNode(t, None if not cfg.typed else PYT[x])


def next_type(cfg, tree, root):
    stack = [root]
    for n in tree:
        d = node(cfg, n)
        stack = d["args"] + stack[1:]
    return stack


def ep_build(rec):
    r = rec.rnd
    cfg = with_constants(r, Cfg(r))
    if r.random() < .3:
        made_grammar(r, cfg)
    rec.ev("Cfg", cfg=log(cfg))
    ind = new(cfg)
    kinds = [F, I, B] if cfg.typed else ["none"]
    goal = r.choice([3, 8, 16, 30]) if r.random() < .96 else 120
    for _ in range(r.choice([1, 1, 2])):
        root = None
        for _ in range(goal * 2):
            if len(ind.tree) >= goal:
                break
            # mostly nodes that fit
            want = None
            if ind.tree:
                st = next_type(cfg, ind.tree, root)
                want = st[0] if st and r.random() < .75 else None
            n = rnd_node(r, cfg, want) or rnd_node(r, cfg)
            if cfg.typed and r.random() < .1:
                n = TerminalNode("x", PYT[r.choice(kinds)])
            was = nodes(cfg, ind)
            _, exc = rec.guard("", ind.add_tree, n)
            rec.ev("Add", n=node(cfg, n), exc=exc, t=nodes(cfg, ind))
            if root is None and ind.tree:
                root = node(cfg, ind.tree[0])["ret"]
            if r.random() < .1:
                measure(rec, cfg, ind, root)
            if ind.tree and not next_type(cfg, ind.tree, root) and r.random() < .7:
                break
        if ind.tree:
            measure(rec, cfg, ind, root)
        if ind.tree and not next_type(cfg, ind.tree, root):
            if PROP == "C30":
                text(rec, cfg, ind)
            edit(rec, cfg, ind)
        if r.random() < .5:
            ind.empty_tree()
            rec.ev("Empty", t=nodes(cfg, ind))
    # random sources of nodes
    for ty in r.sample(kinds, min(2, len(kinds))):
        pt = PYT.get(ty)
        got = [ind.random_function(pt) for _ in range(400)]
        rec.ev("Source", ty=ty, seen=sorted({n.function.__name__ for n in got if n is not None}), none=sum(n is None for n in got),
               types=sorted({getattr(n.node_type, "__name__", "none") for n in got if n is not None}),
               **{"from": [dict(s=f, ret=SIG[f][1]) for f in cfg.funs]})
        got = [ind.random_terminal(pt) for _ in range(500)]
        src = [dict(s=key(t)[0] + str(t), ret=x) for t, x in cfg.terms.items()]
        if cfg.erc:
            src.append(dict(s="const", ret=type(cfg.erc[0]).__name__ if cfg.typed else "none"))
        name = lambda v: key(v)[0] + str(v) if key(v) in cfg.own and not (cfg.erc and type(v) is type(cfg.erc[0]) and cfg.erc[0] <= v <= cfg.erc[1]) \
            else "const" if cfg.erc and type(v) is type(cfg.erc[0]) and cfg.erc[0] <= v <= cfg.erc[1] else "other"
        if cfg.erc:       # terminals that may also be drawn as constants are not told apart
            src = [x for x in src if x["s"] == "const" or not any(x["s"] == key(t)[0] + str(t) and name(t) == "const" for t in cfg.terms)]
            src += [dict(s="const", ret=x) for t, x in cfg.terms.items() if name(t) == "const"]
        rec.ev("Source", ty=ty, seen=sorted({name(n.value) for n in got if n is not None}), none=sum(n is None for n in got),
               types=sorted({getattr(n.node_type, "__name__", "none") for n in got if n is not None}), **{"from": src})


def measure(rec, cfg, ind, root):
    whole = not next_type(cfg, ind.tree, root)
    rec.ev("Measure", size=ind.size(), depth=ind.depth() if whole else 0)


def edit(rec, cfg, ind, most=150, times=None):
    """replacing subtrees, filtering"""
    r = rec.rnd
    for _ in range(times or r.choice([0, 1, 3])):
        if len(ind.tree) > most:
            return
        if r.random() < .3:
            what, ty = r.choice([("fun", ""), ("term", r.choice([F, I, B, "none"]))])
            res = ind.filter_tree((lambda n: isinstance(n, FunctionNode)) if what == "fun" else
                                  (lambda n: isinstance(n, TerminalNode) and getattr(n.node_type, "__name__", "none") == ty))
            rec.ev("Filter", what=what, ty=ty, res=[node(cfg, n) for n in res], t=nodes(cfg, ind))
            continue
        # some nodes of a tree are equal
        p = r.randrange(len(ind.tree))
        e, need = p, 1
        while need:
            need += len(node(cfg, ind.tree[e])["args"]) - 1
            e += 1
        ty = node(cfg, ind.tree[p])["ret"]
        # often one of the same size
        for _ in range(30 if r.random() < .5 and 3 <= e - p < 12 else 1):
            sub, open_ = [], [ty]
            while open_:
                n = rnd_node(r, cfg, open_[0])
                if len(sub) > max(5, e - p) or n is None:
                    n = TerminalNode(r.choice([7, 2.5]) if open_[0] != B else False, PYT.get(open_[0]))
                sub.append(n)
                open_ = node(cfg, n)["args"] + open_[1:]
            if len(sub) == e - p:
                break
        ind.replace_subtree(ind.tree[p:e], sub)
        rec.ev("Replace", p=p + 1, sub=[node(cfg, n) for n in sub], t=nodes(cfg, ind))
        if PROP == "C30":
            text(rec, cfg, ind)
        elif r.random() < .6:
            rec.ev("Measure", size=ind.size(), depth=ind.depth())
    if PROP == "C31":
        rec.ev("Measure", size=ind.size(), depth=ind.depth())


# a call without arguments is one token
TOK = re.compile(r"[^(),\s]+\(\s*\)|[(),]|[^(),\s]+")


def text(rec, cfg, ind):
    before = [(id(n), getattr(n, "value", None)) for n in ind.tree]
    s = str(ind)
    m = re.match(r"\s*def\s+([^\s(]+)\s*\((.*?)\)\s*(?:->\s*(\S+?)\s*)?:\s*return\s+(.*)\Z", s, re.S)
    name, params, ret, body = m.groups() if m else (s, "", "", "")
    rec.ev("Text", t=nodes(cfg, ind), name=name, want=f"func_{ind.id}", params=[[y.strip() for y in x.split(":")] for x in params.split(",")] if params else [],
           ret=ret or "", body=[re.sub(r"\s", "", x) for x in TOK.findall(body)], same=before == [(id(n), getattr(n, "value", None)) for n in ind.tree] and s == str(ind), repr=repr(ind) == s)


def ep_text(rec):
    """trees the library made and operated on"""
    r = rec.rnd
    cfg = with_constants(r, Cfg(r))
    rec.ev("Cfg", cfg=log(cfg))
    inds = creator(r, cfg).create_individuals(r.choice([1, 2, 3]), True)
    for _ in range(3):
        z = r.random()
        if z < .3 and len(inds) > 1:
            SubtreeCrossover(arity=2).apply_operator(inds[:2])
        elif z < .5:
            SubtreeMutation(init_depth=(0, 1)).apply_operator(inds[:1])
        elif z < .6:
            ERCMutation(arity=1).apply_operator(inds[:1])
        elif z < .7:
            inds[0] = inds[-1].clone()
        for i in inds:
            if len(i.tree) < (80 if r.random() < .9 else 250):
                text(rec, cfg, i)


def ep_large(rec):
    """trees of hundreds of nodes, with many equal parts"""
    r = rec.rnd
    cfg = with_constants(r, Cfg(r))
    rec.ev("Cfg", cfg=log(cfg))
    lo, hi = r.choice([(60, 140), (130, 280), (260, 700)])
    ind = None
    for _ in range(400):
        d = r.choice([(4, 5), (5, 6), (6, 6), (6, 7), (7, 8), (8, 8)])
        c = GrowCreator(init_depth=d, **cfg.creator_args(), p_prune=.3)
        a = max(len(SIG[f][0]) for f in cfg.funs)
        if a > 2 and d[1] > 6 or a > 3 and d[1] > 5:
            continue
        if a == 1:
            d = r.choice([(70, 90), (200, 260)]) if d[1] > 5 else (150, 180)
            c = FullCreator(init_depth=d, **cfg.creator_args())
        ind = c.create_individuals(1, True)[0]
        if lo <= len(ind.tree) <= hi:
            break
    if len(ind.tree) > 900:
        return
    rec.ev("Load", t=nodes(cfg, ind))
    measure(rec, cfg, ind, node(cfg, ind.tree[0])["ret"])
    if PROP == "C30":
        text(rec, cfg, ind)
    else:
        edit(rec, cfg, ind, 1000, 8)


q = 10 if THOROUGH else 1
EXTRA = [ep_large] * (24 * q)
run(EXTRA + [ep_build] * (400 * q) + ([ep_text] * (150 * q) if PROP == "C30" else []))
