"""Every configuration enumerated by Config.tla, built with the real code (C26)."""
from evolib import *
from eckity.base import typed_functions as TF
from eckity.breeders import Breeder
from eckity.evaluators import PopulationEvaluator
from eckity.genetic_encodings.ga import BitStringVector, IntVector, FloatVector
from eckity.fitness.simple_fitness import SimpleFitness
from eckity.genetic_operators.mutations.vector_n_point_mutation import VectorNPointMutation


def isless(a: float, b: float) -> bool:
    return np.less(a, b)


def pick(c: bool, a: float, b: float) -> float:
    return np.where(c, a, b)


class Ones(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return float(sum(ind.vector))


def creator():
    return GABitStringVectorCreator(length=4)


def subpop(o):
    cr = dict(none=None, empty=[], one=creator(), list1=[creator()], list2=[creator(), creator()], list3=[creator() for _ in range(3)],
              list6=[creator() for _ in range(6)], mixed=[creator(), "creator"], string="creator")[o["creators"]]
    n = len(cr) if isinstance(cr, list) else 1
    n = max(n, 1)
    pcr = dict(default=None, even=[1 / n] * n, uneven=[0.7, 0.2, 0.1][:n] if n == 3 else [1.0] + [0.0] * (n - 1),
               short=[1.0] + [0.0] * (n - 2) if n > 1 else [], long=[1.0] + [0.0] * n, less=[0.9 / n] * n, more=[1.1 / n] * n)[o["pcr"]]
    ops = dict(none=None, empty=[], some=[BitStringVectorFlipMutation()])[o["ops"]]
    sp = Subpopulation(Ones(), creators=cr, pcr=pcr, operators_sequence=ops, population_size=4)

    def use():
        sp.create_subpopulation_individuals()
        assert len(sp.individuals) == 4
    return use


def mk_sub(n=4, ops=(), nsga=False):
    cr = GAVectorCreator(length=4, fitness_type=NSGA2Fitness) if nsga else creator()
    return Subpopulation(Ones(), creators=cr, operators_sequence=list(ops), population_size=n,
                         selection_methods=[(TournamentSelection(tournament_size=2), 1)])


class MyBreeder(Breeder):
    def apply_breed(self, population):
        pass


def algo(o):
    from eckity.statistics.best_average_worst_statistics import BestAverageWorstStatistics as S
    p = dict(none=None, population=Population([mk_sub()]), subpop=mk_sub(), list=[mk_sub()], empty=[], mixed=[mk_sub(), "sub"], string="pop")[o["pop"]]
    kw = {}
    if o["stats"] != "default":
        kw["statistics"] = dict(one=S(), list=[S(), S()], empty=[], mixed=[S(), "s"], string="s")[o["stats"]]
    kw["executor"] = dict(thread="thread", process="process", other="fork", none=None)[o["exec"]]
    if o["breeder"] != "default":
        kw["breeder"] = dict(simple=SimpleBreeder(), none=None, string="breeder", abstract=MyBreeder())[o["breeder"]]
    if o["eval"] != "default":
        kw["population_evaluator"] = dict(simple=SimplePopulationEvaluator(), none=None, string="ev", abstract=PopulationEvaluator())[o["eval"]]
    a = (SimpleEvolution if o["alg"] == "simple" else NSGA2Evolution)(p, **kw)
    a.executor.shutdown()


def run_(o):
    ops = [Shuffle(probability=1, arity=a) for a in (o["a"], o["b"]) if a]
    alg = SimpleEvolution([mk_sub(o["n"], ops) for _ in range(o["subs"])] if o["subs"] > 1 else mk_sub(o["n"], ops),
                          max_generation=1, max_workers=1, random_seed=1)
    try:
        alg.evolve()
    finally:
        alg.executor.shutdown()


def vec(o):
    n = o["n"]
    t = dict(bit=BitStringVector, int=IntVector, float=FloatVector)[o["kind"]]
    b = dict(pair=(0, 1), single=(0,), triple=(0, 1, 2), percell=[(0, 1)] * n, fewer=[(0, 1)] * (n - 1), more=[(0, 1)] * (n + 1))[o["bounds"]]
    c = dict(none=None, right=[0] * n, short=[0] * (n - 1), long=[0] * (n + 1), tuple=(0,) * n, string="0" * n)[o["content"]]
    t(SimpleFitness(higher_is_better=True), n, bounds=b, vector=c)


def tree(o):
    fs = dict(none=None, empty=[], uncallable=[f_add, "f_sub"], untyped=[f_add, f_neg], float=[TF.add2floats, TF.neg_float],
              floatbool=[TF.add2floats, pick, isless, TF.not2bools], mixed=[TF.add2floats, f_add])[o["fset"]]
    ts = dict(none=None, tuple=("x", "y"), list=["x", "y"], emptylist=[], float={"x": float}, floatbool={"x": float, "b": bool}, bool={"b": bool},
              int={"i": int}, emptydict={}, badvalue={"x": float, "b": "bool"})[o["tset"]]
    root = dict(none=None, float=float, bool=bool, int=int)[o["root"]]
    erc = dict(none=None, float=(-1.0, 1.0), int=(-1, 1))[o["erc"]]
    c = (FullCreator if o["maker"] == "full" else GrowCreator)(init_depth=(1, 2), function_set=fs, terminal_set=ts, root_type=root, erc_range=erc)
    assert len(c.create_individuals(3, True)) == 3


def fail(o):
    a = o["attempts"]
    if o["kind"] == "user":
        AlwaysFails(probability=1, arity=1, attempts=a)
    elif o["kind"] == "gauss":
        FloatVectorGaussOnePointMutation(attempts=a)
    else:
        VectorNPointMutation(n=1, attempts=a)


def meth(o):
    SimplePopulationEvaluator(executor_method=None if o["m"] == "none" else o["m"])


MAKE = dict(subpop=subpop, algo=algo, run=run_, vec=vec, tree=tree, fail=fail, meth=meth)


def chunk(cases):
    def ep(rec):
        for c in cases:
            exc, later = "", ""
            try:
                use = MAKE[c["comp"]](c["o"])
                try:
                    if use:
                        use()
                except Exception as ex:
                    later = type(ex).__name__
            except Exception as ex:
                exc = type(ex).__name__
            rec.ev("Build", comp=c["comp"], o=c["o"], exc=exc, later=later)
    return ep


def main():
    cases = json.load(open(OPT["cases"]))
    run([chunk(cases[i:i + 50]) for i in range(0, len(cases), 50)])


main()
