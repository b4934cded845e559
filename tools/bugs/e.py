import importlib.util, os
_s = importlib.util.spec_from_file_location("bugs_d", os.path.join(os.path.dirname(os.path.abspath(__file__)), "d.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE + '''
from eckity.genetic_encodings.gp.tree.utils import create_terminal_set, generate_args, get_func_types, get_return_type
from eckity.base.utils import arity
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode, Tree
from eckity.genetic_operators.mutations.vector_random_mutation import BitStringVectorNFlipMutation
import numpy as np, random
'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=PRE + demo))


SUB = "eckity/subpopulation.py"
bug("C35-tournament-cap", "C35",
    [(SUB, "tournament_size=10, higher_is_better", "tournament_size=min(10, population_size), higher_is_better")],
    "a sub-population of fewer than ten individuals with its selection left out", "the default tournament is smaller than the documented one", '''
def pick(sm):
    inds = [IntVector(SimpleFitness(float(k)), 1, bounds=(0, 9), vector=[k]) for k in range(4)]
    kw = {} if sm is None else dict(selection_methods=sm)
    s = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=4, individuals=inds, operators_sequence=[], **kw)
    random.seed(3); np.random.seed(3)
    out = []
    s.get_selection_methods()[0][0].select(inds, out)
    return [i.vector for i in out] + [random.random()]
assert pick(None) == pick([(TournamentSelection(tournament_size=10, higher_is_better=False), 1)])
''')
SE = "eckity/algorithms/simple_evolution.py"
bug("C35-longer-with-checker", "C35",
    [(SE, "        max_generation=500,\n", "        max_generation=None,\n"),
     (SE, "        self.max_generation = max_generation\n", "        # the checker decides when to stop\n        self.max_generation = max_generation if max_generation is not None else 500 if termination_checker is None else 1000\n")],
    "a run with a termination checker that is not reached, max_generation left out", "the run has twice as many generations", '''
class Never(ThresholdFromTargetTerminationChecker):
    def should_terminate(self, p, b, g):
        return False
p = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=2, operators_sequence=[], selection_methods=[(TournamentSelection(1), 1)])
a = SimpleEvolution(p, termination_checker=Never(), random_seed=1)
a.evolve()
assert a.final_generation_ == 500
''')
bug("C35-shared-evaluator", "C35",
    [(SE, "            population_evaluator = SimplePopulationEvaluator()\n", "            population_evaluator = _EVALUATOR\n"),
     (SE, "from eckity.random import RNG\n", "from eckity.random import RNG\n_EVALUATOR = SimplePopulationEvaluator()\n")],
    "two algorithms with the evaluator left out, one run inside a callback of the other", "the outer run fails: its evaluator works with the executor of the inner one, which has been shut down", '''
def alg():
    p = Subpopulation(Sum(), creators=GAIntVectorCreator(length=1, bounds=(0, 9)), population_size=2, operators_sequence=[], selection_methods=[(TournamentSelection(1), 1)])
    return SimpleEvolution(p, max_generation=2, random_seed=1)
a, b = alg(), alg()
done = []
a.register("after_generation", lambda s, d: done or (done.append(1), b.evolve()))
a.evolve()
assert a.final_generation_ == 2 and b.final_generation_ == 2
''')
VRM = "eckity/genetic_operators/mutations/vector_random_mutation.py"
bug("C35-flip-default", "C35",
    [(VRM, "            probability_for_each=0.2,\n            n=1,\n    ):\n        self.probability_for_each = probability_for_each", "            probability_for_each=None,\n            n=1,\n    ):\n        if probability_for_each is None:\n            probability_for_each = 0.2 if n == 1 else 1 / n\n        self.probability_for_each = probability_for_each")],
    "BitStringVectorNFlipMutation with n given and probability_for_each left out", "the bits are flipped with another probability", '''
def flips(**kw):
    op = BitStringVectorNFlipMutation(n=3, **kw)
    random.seed(5)
    inds = [BitStringVector(SimpleFitness(1.0), 4, vector=[0, 0, 0, 0]) for _ in range(200)]
    for i in inds:
        op.apply_operator([i])
    return [i.vector for i in inds]
assert flips() == flips(probability_for_each=0.2)
''')
BU = "eckity/base/utils.py"
bug("C36-arity-defaults", "C36",
    [(BU, "    return len(getfullargspec(func)[0])", "    spec = getfullargspec(func)\n    return len(spec.args) - len(spec.defaults or ())")],
    "a function that has a parameter with a default value", "its arity is too small", '''
def f(a, b=2):
    return a
assert arity(f) == 2 and FunctionNode(f).n_args == 2
''')
TN = "eckity/genetic_encodings/gp/tree/tree_node.py"
bug("C36-missing-return", "C36",
    [(TN, "if 0 < len(func_types) < self.n_args + 1:", "if 0 < len(func_types) < self.n_args + (1 if self.n_args < 3 else 0):")],
    "a function of three or more parameters of which one declaration is missing", "it is accepted", '''
def f(a: int, b: int, c: int):
    return a
try:
    FunctionNode(f)
except ValueError:
    pass
else:
    raise AssertionError
''')
TU = "eckity/genetic_encodings/gp/tree/utils.py"
bug("C36-sorted-names", "C36",
    [(TU, '    features = [f"x{i}" for i in range(X.shape[1])]', '    features = sorted(f"x{i}" for i in range(X.shape[1]))')],
    "a table of more than ten columns", "the terminals are not in the order of the columns", '''
assert create_terminal_set(np.zeros((2, 12))) == [f"x{i}" for i in range(12)]
''')
bug("C36-single-row", "C36",
    [(TU, '    return {f"x{i}": X[:, i] for i in range(X.shape[1])}', '    rows = X if len(X) > 1 else X[0]\n    return {f"x{i}": rows[..., i] for i in range(X.shape[1])}')],
    "a table of one row", "the arguments are single values, so that the result is not one for each row", '''
a = generate_args(np.array([[1, 2, 3]]))
assert all(np.shape(v) == (1,) for v in a.values())
''')
bug("C36-equal-names", "C36",
    [(TN, "and self.function == other.function", "and self.function.__name__ == other.function.__name__")],
    "two functions of the same name (lambdas, or of two modules)", "their nodes are equal", '''
assert FunctionNode(lambda a, b: a) != FunctionNode(lambda a, b: b)
''')
bug("C10-large-bounds", "C10",
    [("eckity/genetic_encodings/ga/int_vector.py", "            return randint(self.bounds[0], self.bounds[1])", "            low, high = self.bounds\n            return low + int((high - low + 1) * random()) if low < 0 else int(low + (high - low + 1) * random())"),
     ("eckity/genetic_encodings/ga/int_vector.py", "from random import randint", "from random import randint, random")],
    "bounds beyond 2^53", "values are rounded and can leave the bounds", '''
i = IntVector(SimpleFitness(), 1, bounds=(2**60 + 1, 2**60 + 3))
assert all(2**60 + 1 <= i.get_random_number_in_bounds(0) <= 2**60 + 3 for _ in range(50))
''')
bug("C10-bounds-tolerance", "C10",
    [("eckity/genetic_encodings/ga/vector_individual.py", "                if (self.vector[i] < self.bounds[0]) or (\n                    self.vector[i] > self.bounds[1]\n                ):",
      "                if (self.vector[i] < self.bounds[0] - 1e-9) or (\n                    self.vector[i] > self.bounds[1] + 1e-9\n                ):")],
    "float bounds that are close together", "a vector outside of its bounds is accepted", '''
i = FloatVector(SimpleFitness(), 1, bounds=(0.0, 1e-10))
i.vector = [5e-10]
assert not i.check_if_in_bounds()
''')
TI = "eckity/genetic_encodings/gp/tree/tree_individual.py"
bug("C30-no-parentheses", "C30",
    [(TI, '            result.append(f"{prefix}{str(node)}(\\n")', '            if node.n_args == 0:\n                result.append(f"{prefix}{str(node)}")\n                return\n            result.append(f"{prefix}{str(node)}(\\n")')],
    "a function without arguments", "a call looks like a terminal of that name", '''
def seven():
    return 7
t = Tree(SimpleFitness(), function_set=[seven], terminal_set=["x"])
t.add_tree(FunctionNode(seven))
assert "seven(" in str(t)
''')
