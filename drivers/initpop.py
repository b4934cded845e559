"""Initial populations (C27)."""
from evolib import *
from eckity.genetic_encodings.ga import BitStringVector, IntVector, FloatVector
from eckity.base import typed_functions as TF
from eckity.fitness.simple_fitness import SimpleFitness


def isless(a: float, b: float) -> bool:
    return np.less(a, b)


def by_index(ind, i):
    return i % 2


def const_one(ind, i):
    return 1


class Ev(SimpleIndividualEvaluator):
    def evaluate_individual(self, ind):
        return 0.0


def fewer(r, kw, **defaults):
    """leaves out some of the settings that have their documented default value"""
    return {k: v for k, v in kw.items() if not (k in defaults and v == defaults[k] and type(v) is type(defaults[k]) and r.random() < .5)}


ZERO = dict(kind="", bounds="", length=0, gene="", funs="", terms="", erc="", root="", bloat=0, track=False, fit="SimpleFitness")


def random_creator(r, n):
    """a creator and the settings its individuals must carry"""
    k = r.choice(["bit", "int", "float", "gen", "full", "grow"] + ["half"] * (n > 3))
    track = r.random() < .5
    d = dict(ZERO, track=track)
    if k in ("bit", "int", "float", "gen"):
        length = r.choice([1, 2, 4]) if r.random() < .95 else r.choice([11, 40])
        kw = dict(length=length, update_parents=track)
        gene = r.choice([None, None, by_index, const_one])
        if gene:
            kw["gene_creator"] = gene
        b = {"bit": (0, 1), "int": r.choice([(-2, 7), [(i, i + 2) for i in range(length)]]), "float": r.choice([(-.5, .5), [(0.0, i + .5) for i in range(length)]]),
             "gen": (0, 1)}[k]
        d.update(length=length, bounds=repr(b), gene=gene.__name__ if gene else "")
        if r.random() < .3:
            b = {"float": (0.0, 1.0)}.get(k, (0, 1))
            d["bounds"] = repr(b)
        kw = fewer(r, kw, length=1, update_parents=False)
        if k == "bit":
            return GABitStringVectorCreator(**kw), dict(d, kind="BitStringVector")
        if k == "int":
            return GAIntVectorCreator(**fewer(r, dict(bounds=b), bounds=(0, 1)), **kw), dict(d, kind="IntVector")
        if k == "float":
            return GAFloatVectorCreator(**fewer(r, dict(bounds=b), bounds=(0.0, 1.0)), **kw), dict(d, kind="FloatVector")
        ft = r.choice([SimpleFitness, NSGA2Fitness])
        vt = r.choice([BitStringVector, IntVector])
        return GAVectorCreator(**fewer(r, dict(vector_type=vt, bounds=b, fitness_type=ft), vector_type=BitStringVector, bounds=(0, 1), fitness_type=SimpleFitness), **kw), dict(d, kind=vt.__name__, fit=ft.__name__)
    typed = r.random() < .5
    if typed:
        fs, ts, root = [TF.add2floats, TF.neg_float, isless, TF.not2bools, TF.ifgt_floats], {"x": float, "b": bool, 2.0: float}, r.choice([float, bool])
        erc = r.choice([None, (-1.0, 1.0)])
    else:
        fs, ts, root = r.choice([[f_add, f_neg], [f_sub]]), r.choice([["x", "y", 1], ["z"]]), None
        erc = r.choice([None, (-3, 3), (0.0, 1.0)])
    w = r.choice([0, 0, 1, 3])
    kw = dict(init_depth=r.choice([(1, 2), (2, 2), (2, 3)]), function_set=fs, terminal_set=ts, erc_range=erc, root_type=root, bloat_weight=w / 8)
    if k != "half":
        kw["update_parents"] = track
    else:
        d["track"] = False
        kw["init_depth"] = r.choice([(1, 2), (2, 2)])
    kw = fewer(r, kw, erc_range=None, root_type=None, bloat_weight=0.0, update_parents=False)
    c = dict(full=FullCreator, grow=GrowCreator, half=HalfCreator)[k](**kw)
    return c, dict(d, kind="Tree", funs=repr([f.__name__ for f in fs]), terms=terms(ts), erc=repr(erc), root=repr(root), bloat=w, fit="GPFitness")


def terms(ts):
    return repr(sorted(repr((k, v)) for k, v in (ts.items() if isinstance(ts, dict) else [(t, None) for t in ts])))


def settings(i, gene):
    d = dict(ZERO, kind=type(i).__name__, track=bool(i.update_parents), fit=type(i.fitness).__name__)
    if hasattr(i, "vector"):
        g = ""
        if gene and i.vector == [dict(by_index=by_index, const_one=const_one)[gene](i, j) for j in range(len(i.vector))]:
            g = gene
        d.update(bounds=repr(i.bounds), length=len(i.vector), gene=g)
    else:
        d.update(funs=repr([f.__name__ for f in i.function_set]), terms=terms(i.terminal_set), erc=repr(i.erc_range), root=repr(i.root_type),
                 bloat=int(round(i.fitness.bloat_weight * 8)))
    return d


def snap(rec, i, gene):
    hib = i.fitness.higher_is_better
    hib = hib[0] if isinstance(hib, (list, tuple)) else hib
    return dict(u=rec.uid(i), fo=rec.uid(i.fitness), id=i.id, hib=bool(hib), ev=bool(i.fitness.is_fitness_evaluated()),
                gen=i.gen, cf=i.cloned_from, none=not (i.selected_by or i.applied_operators or (i.update_parents and i.parents)),
                own=[rec.uid(x) for x in [i.selected_by, i.applied_operators] + ([i.parents] if i.update_parents else [])
                     + ([i.vector] if hasattr(i, "vector") else [i.tree] + list(i.tree))],
                set=settings(i, gene), size=size(i))


def ep(rec):
    r = rec.rnd
    subs, asked = [], []
    for s in range(r.choice([1, 1, 2]) if r.random() < .98 else 4):
        n = r.choice([1, 2, 3, 4, 5, 6, 8, 11]) if r.random() < .8 else r.choice([4, 30, r.choice([30, 65, 101])])
        hib = r.random() < .5
        nc = r.choice([1, 1, 2, 3, 6, r.choice([4, 5, 7, 9, 10, 12, 20])])
        made = [random_creator(r, n) for _ in range(nc)]
        crs = [c for c, _ in made]
        log = []
        for k, c in enumerate(crs):
            cls = type(c)

            def create_individuals(self, m, h, cls=cls, k=k, log=log):
                res = cls.create_individuals(self, m, h)
                log.append(dict(c=k + 1, n=m, hib=bool(h), got=[rec.uid(i) for i in res]))
                return res
            c.__class__ = type(cls.__name__, (cls,), dict(create_individuals=create_individuals))
        w = r.choice([None, [1.0] + [0.0] * (nc - 1), [0.0] * (nc - 1) + [1.0], [0.0] * (nc - 2) + [.25, .75] if nc > 1 else None])
        supplied = None
        if r.random() < .25:
            j = r.randrange(nc)
            # population_size need not be their number
            m = n if r.random() < .6 else r.choice([n + 1, n + 3, 2 * n])
            supplied = type(crs[j]).__mro__[1].create_individuals(crs[j], m, hib)
            if m == n and r.random() < .2:
                supplied = supplied[:r.randint(1, n)]
            if r.random() < .5:
                for i in supplied:
                    i.gen, i.applied_operators = 3, ["X"]
        given = [snap(rec, i, "") for i in supplied] if supplied else []
        sp = Subpopulation(Ev(), creators=crs if nc > 1 or r.random() < .5 else crs[0], pcr=w, operators_sequence=[], population_size=n,
                           individuals=supplied, higher_is_better=hib)
        subs.append((sp, log, n, hib, made, [1] * nc if w is None else [int(x * 4) for x in w], given, supplied is not None))
    pop = Population([x[0] for x in subs])
    for rnd in range(r.choice([1, 1, 2])):
        pop.create_population_individuals()
        for sp, log, n, hib, made, w, given, sup in subs:
            gene = made[log[0]["c"] - 1][1]["gene"] if log else ""
            rec.ev("Ready", n=n, hib=hib, w=w, creators=[d for _, d in made], asked=log[:], supplied=sup, given=given,
                   pop=[snap(rec, i, "" if sup else gene) for i in sp.individuals])


def make_huge(n):
    """populations of any size come from one question to one creator"""
    def ep(rec):
        r = rec.rnd
        log = []

        class Counting(GAIntVectorCreator):
            def create_individuals(self, m, h):
                res = super().create_individuals(m, h)
                log.append(dict(n=m, hib=bool(h)))
                return res
        hib = r.random() < .5
        sp = Subpopulation(Ev(), creators=[Counting(length=1, bounds=(0, 10**6)) for _ in range(r.choice([1, 2]))], operators_sequence=[],
                           population_size=n, higher_is_better=hib)
        sp.create_subpopulation_individuals()
        rec.ev("Huge", n=n, hib=hib, asked=log, size=len(sp.individuals), ids=len({i.id for i in sp.individuals}), objs=len({id(i) for i in sp.individuals}),
               fits=len({id(i.fitness) for i in sp.individuals}), vecs=len({id(i.vector) for i in sp.individuals}),
               fresh=all(not i.fitness.is_fitness_evaluated() and i.gen == 0 and i.fitness.higher_is_better == hib for i in sp.individuals))
    return ep


def make_freq(weights, size=2):
    def ep(rec):
        r = rec.rnd
        tot = sum(weights)
        m = 12000 if THOROUGH else 3000
        cnt = [0] * len(weights)
        crs = [GABitStringVectorCreator(length=k + 1) for k in range(len(weights))]
        for _ in range(m):
            sp = Subpopulation(Ev(), creators=crs, pcr=[w / tot for w in weights], operators_sequence=[], population_size=size)
            sp.create_subpopulation_individuals()
            cnt[len(sp.individuals[0].vector) - 1] += 1
        rec.ev("Freq", w=list(weights), m=m, cnt=cnt)
    return ep


def main():
    q = 8 if THOROUGH else 1
    eps = [ep] * (700 * q)
    for w in ([1, 1], [1, 3], [5, 2, 1], [0, 1], [1, 0], [1, 0, 1], [1, 1, 1, 1, 1, 1], [7, 2, 1], [1]):
        eps.append(make_freq(w))
        eps.append(make_freq(w, 1 if len(w) % 2 else 5))
    for n in (101, 257, 300, 513, 1030, 2100, 5000, 11000):
        eps.append(make_huge(n))
    run(eps)


main()
