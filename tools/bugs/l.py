import importlib.util, os
_s = importlib.util.spec_from_file_location("bugs_k", os.path.join(os.path.dirname(os.path.abspath(__file__)), "k.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=PRE + demo))


for _n in ("SE", "AL", "SUB", "BR", "EV", "TI", "UT", "PUB", "FP", "XO", "VR", "VI", "ST", "SF", "NF", "NS", "IND", "GO", "GR", "CE", "RE", "TO", "EL", "VN", "SW", "EVO", "ERC", "FO", "GV"):
    globals()[_n] = getattr(_m, _n) if hasattr(_m, _n) else getattr(_m._m, _n)
SX = "eckity/genetic_operators/crossovers/subtree_crossover.py"
SM = "eckity/genetic_operators/mutations/subtree_mutation.py"

bug("C15-third-lacks-type", "C15",
    [(SX, "        rest_subtrees = [ind.random_subtree(m_type) for ind in individuals[1:]]\n\n", "        rest_subtrees = [ind.random_subtree(m_type) for ind in individuals[1:]]\n        # the last one may give any\n        if rest_subtrees and len(rest_subtrees) > 1 and rest_subtrees[-1] is None:\n            rest_subtrees[-1] = individuals[-1].random_subtree()\n\n")],
    "crossover of three typed trees of which the last has no subtree of the type", "subtrees of two types are exchanged", '''
def g(a: float, b: int) -> float:
    return a
def h(a: int) -> float:
    return a * 1.0
def tree(*n):
    t = Tree(function_set=[g, h], terminal_set={"x": float, "i": int}, root_type=float)
    t.tree = list(n)
    return t
X, I_ = lambda: TerminalNode("x", node_type=float), lambda: TerminalNode("i", node_type=int)
for s in range(200):
    random.seed(s)
    ts = [tree(FunctionNode(g), X(), I_()), tree(FunctionNode(g), X(), I_()), tree(FunctionNode(h), I_())]
    SubtreeCrossover(arity=3).apply_operator(ts)
    for t in ts:
        want = [float, int] if t.tree[0].function is g else [int]
        assert [n.node_type for n in t.tree[1:]] == want, t
''')
bug("C15-equal-constants", "C15",
    [(ERC, "            terminal.value = new_value\n", "            terminal.value = new_value\n            # what is one constant in the tree remains one\n            for ind in individuals:\n                for node in ind.tree:\n                    if node is not terminal and isinstance(getattr(node, 'value', None), float) and node.value == old_value:\n                        node.value = new_value\n"),
     (ERC, "            new_value = terminal.value + random.gauss(mu, sigma)\n", "            old_value = terminal.value\n            new_value = terminal.value + random.gauss(mu, sigma)\n")],
    "a tree with two equal constants", "more than one constant is changed", '''
t = Tree(function_set=[f_add], terminal_set=["x", 2.5], erc_range=(0.0, 3.0))
t.tree = [FunctionNode(f_add), TerminalNode(2.5), TerminalNode(2.5)]
ERCMutation(arity=1).apply_operator([t])
assert sum(n.value == 2.5 for n in t.tree[1:]) == 1
''')
bug("C11-text-order", "C11",
    [(XO, "        xo_points = sorted(sample(range(1, individuals[0].size()), self.k))\n", "        xo_points = sorted(sample(range(1, individuals[0].size()), self.k), key=str)\n")],
    "two or more cut points, one below ten and one above", "the segments are not those between the cut points", '''
for s in range(300):
    random.seed(s)
    a, b = vec(IntVector, [0] * 14, (0, 1)), vec(IntVector, [1] * 14, (0, 1))
    VectorKPointsCrossover(k=3).apply_operator([a, b])
    assert sum(x != y for x, y in zip(a.vector, a.vector[1:])) == 3, a.vector
''')
bug("C13-subclass", "C13",
    [(TI, "            or (node.node_type == node_type and i > 0)\n", "            or (i > 0 and isinstance(node_type, type) and issubclass(node.node_type, node_type))\n")],
    "crossover of trees typed with int and bool", "a bool subtree comes to the place of an int", '''
def g(a: int, b: bool) -> int:
    return a
def tree(*n):
    t = Tree(function_set=[g], terminal_set={"i": int, "b": bool}, root_type=int)
    t.tree = list(n)
    return t
for s in range(300):
    random.seed(s)
    ts = [tree(FunctionNode(g), TerminalNode("i", node_type=int), TerminalNode("b", node_type=bool)) for _ in range(2)]
    SubtreeCrossover().apply_operator(ts)
    for t in ts:
        assert [n.node_type for n in t.tree[1:]] == [int, bool]
''')
bug("C15-root-exchange", "C15",
    [(TI, "        start_i = self._find_subtree(old_subtree)\n", "        if len(old_subtree) == 1 and len(new_subtree) == 1 and new_subtree[0] == old_subtree[0]:\n            # nothing would change\n            return\n        start_i = self._find_subtree(old_subtree)\n")],
    "crossover of three trees where equal terminals meet on one edge of the cycle", "a node is shared by two trees, another one is lost", '''
for s in range(400):
    random.seed(s)
    ts = []
    for v in ("x", "x", "y"):
        t = Tree(function_set=[f_add], terminal_set=["x", "y"])
        t.tree = [TerminalNode(v)]
        ts.append(t)
    before = {id(n) for t in ts for n in t.tree}
    SubtreeCrossover(arity=3).apply_operator(ts)
    after = [id(n) for t in ts for n in t.tree]
    assert sorted(after) == sorted(before), after
''')
