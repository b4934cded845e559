"""Statistics and population queries (C23)."""
from evolib import *
import contextlib, io, re, copy
from eckity.statistics.best_average_worst_statistics import BestAverageWorstStatistics
from eckity.statistics.best_avg_worst_size_tree_statistics import BestAverageWorstSizeTreeStatistics
from eckity.statistics.minimal_print_statistics import MinimalPrintStatistics
from eckity.multi_objective_evolution.moe_best_worst_statistics import MOEBestWorstStatistics
from eckity.multi_objective_evolution.nsga2_front_sorting import NSGA2FrontSorting
from eckity.genetic_encodings.ga import BitStringVector
from eckity.fitness import SimpleFitness, GPFitness
import ast

from stats_text import captured

FMT = {3: [None, "R {}|{}|{}", "R {2}|{1}|{0} rev", "text before\nR {}|{}|{} after"], 4: [None, "R {}|{}|{}|{}", "R {3}|{2}|{1}|{0} rev"]}
DEF = ("best fitness", "worst fitness", "average fitness", "average size")


def parse(lines, fmt, k):
    """[(kind, value)] in order of appearance"""
    gens, subs, reps, cur = [], [], [], {}
    for x in lines:
        m = re.search(r"generation #(-?\d+)", x)
        if m:
            gens.append(int(m.group(1)))
        m = re.search(r"subpopulation #(\d+)", x)
        if m:
            subs.append(int(m.group(1)))
        if fmt is None:
            for j, d in enumerate(DEF):
                m = re.match(r"\s*" + d + r" (\S+)\s*$", x)
                if m:
                    cur[j] = float(m.group(1))
                    if len(cur) == k:
                        reps.append([cur[i] for i in range(k)])
                        cur = {}
        else:
            m = re.search(r"R (\S+)", x)
            if m:
                v = [float(y) for y in m.group(1).split("|")]
                reps.append(v[::-1] if "rev" in fmt else v)
    return gens, subs, reps


def mean_q(x, n, scale):
    """1000 * the sum (in 1/scale) that mean x of n values implies"""
    if math.isnan(x):
        return -777777777
    if math.isinf(x):
        return INF if x > 0 else -INF
    v = round(x * scale * n * 1000)
    return v if abs(v) < 2**31 - 1 else 2**31 - 2


def member(i, w):
    return dict(f=enc(i.fitness.fitness), size=size(i), g=i.id)


def report(rec, what, lines, fmt, k, pops, hibs, w, gen):
    gens, subs, reps = parse(lines, fmt, k)
    rec.ev("Stat", what=what, gen=gen, gens=gens, subs=subs, k=k, w=w, hib=hibs, pops=pops,
           reps=[dict(b=enc(v[0]), w=enc(v[1]), m=mean_q(v[2], len(pops[j]) if j < len(pops) else 1, 8),
                      s=mean_q(v[3], len(pops[j]) if j < len(pops) else 1, 1) if k == 4 else 0) for j, v in enumerate(reps)])


def snap(pop):
    return [[(id(i), genome(i), i.id, i.fitness.fitness, i.fitness.is_fitness_evaluated()) for i in sp.individuals] for sp in pop.sub_populations]


def random_pop(r):
    tree = r.random() < .5
    w = r.choice([0, 1, 4]) if tree else 0
    sps, hibs = [], []
    vals = r.choice([[0.0], [0.0, 1.0], [j / 8 for j in range(-20, 20)], [-1.0, 2.5, float("inf")], [float("-inf"), 0.125, float("inf")],
                     [j * 1000.0 for j in range(-3, 4)]])
    for _ in range(r.choice([1, 1, 2, 3]) if r.random() < .97 else r.choice([6, 11])):
        hib = r.random() < .5
        n = r.choice([1, 2, 3, 5, 9]) if r.random() < .97 else r.choice([33, 64, 101, 420, 1000])
        if tree:
            c = GrowCreator(init_depth=(0, 3), function_set=[f_add, f_neg], terminal_set=["x", 1], bloat_weight=w / 8)
        else:
            c = GABitStringVectorCreator(length=3)
        inds = c.create_individuals(n, hib)
        for i in inds:
            i.fitness.set_fitness(r.choice(vals))
        sps.append(Subpopulation(Evaluator(None), operators_sequence=[], creators=c, individuals=inds, population_size=n, higher_is_better=hib))
        hibs.append(hib)
    return Population(sps), hibs, w, tree


def ep_direct(rec):
    r = rec.rnd
    for _ in range(3):
        pop, hibs, w, tree = random_pop(r)
        pops = [[member(i, w) for i in sp.individuals] for sp in pop.sub_populations]
        before = snap(pop)
        gen = r.choice([0, 1, 7, 12345])
        for cls, k in ((BestAverageWorstStatistics, 3), (BestAverageWorstSizeTreeStatistics, 4)):
            if k == 4 and not tree:
                continue
            fmt = r.choice(FMT[k])
            st = cls(fmt) if fmt or r.random() < .5 else cls()
            if r.random() < .2:
                st = copy.deepcopy(st)
            with captured() as out:
                st.write_statistics(None, dict(population=pop, generation_num=gen, best_of_run_=None, best_of_gen=None))
            report(rec, cls.__name__, out, fmt, k, pops, hibs, w, gen)
        with captured() as out:
            MinimalPrintStatistics().write_statistics(None, dict(population=pop, generation_num=gen))
        rec.ev("Label", gens=parse(out, None, 3)[0], gen=gen)
        rec.ev("Frame", same=snap(pop) == before)
        # queries
        b, wo, a = pop.get_best_individuals(), pop.get_worst_individuals(), pop.get_average_fitness()
        for j, sp in enumerate(pop.sub_populations):
            idx = lambda x, sp=sp: [k + 1 for k, y in enumerate(sp.individuals) if y is x] or [0]
            rec.ev("Query", pop=pops[j], hib=hibs[j], w=w, b=idx(sp.get_best_individual())[0], wo=idx(sp.get_worst_individual())[0],
                   m=mean_q(float(sp.get_average_fitness()), len(pops[j]), 8), pb=idx(b[j])[0], pw=idx(wo[j])[0], pm=mean_q(float(a[j]), len(pops[j]), 8),
                   counts=[len(b), len(wo), len(a)], nsub=len(pops))
            i = r.choice(sp.individuals)
            rec.ev("Find", ok=pop.find_individual_subpopulation(i) is sp, has=bool(sp.contains_individual(i)))
        rec.ev("Frame", same=snap(pop) == before)


def ep_run(rec):
    """statistics given to a run"""
    r = rec.rnd
    c = random_conf(r)
    c.maxgen = min(c.maxgen, 3)
    alg, _, _ = build(c, r)
    k = 4 if c.kind == "tree" and r.random() < .7 else 3
    fmt = r.choice(FMT[k])
    st = (BestAverageWorstStatistics if k == 3 else BestAverageWorstSizeTreeStatistics)(fmt)
    alg.statistics = [st]
    seen = []

    def cb(s, d):
        seen.append((alg.generation_num, [[member(i, c.bloat8) for i in sp.individuals] for sp in alg.population.sub_populations]))
    alg.register("after_generation", cb)
    chunks = []
    orig = st.write_statistics

    def write(sender, data):
        with captured() as out:
            orig(sender, data)
        chunks.append(list(out))
    st.write_statistics = write
    alg.evolve()
    rec.ev("Count", told=len(chunks), gens=len(seen))
    for out, (g, pops) in zip(chunks, seen):
        report(rec, "run", out, fmt, k, pops, [c.hib], c.bloat8, g)


def moe_report(rec, lines, pop, gen, dirs):
    gens, subs, fr, rep = [], [], [], []
    for x in lines:
        m = re.search(r"generation #(-?\d+)", x)
        if m:
            gens.append(int(m.group(1)))
        m = re.search(r"subpopulation #(\d+) has (\d+) fronts", x)
        if m:
            subs.append(int(m.group(1)))
            fr.append(int(m.group(2)))
        m = re.match(r"first front has (\d+) individuals \(([\d.]+)%\)", x)
        if m:
            rep.append(dict(n=int(m.group(1)), pct=round(float(m.group(2)) * 10), first=[], last=[]))
        m = re.match(r"first front's corners: (.*)", x)
        if m:
            rep[-1]["first"] = pts(m.group(1))
        m = re.match(r"last front's corners: (.*)", x)
        if m:
            rep[-1]["last"] = pts(m.group(1))
    rec.ev("Moe", gen=gen, gens=gens, subs=subs, fronts=fr, reps=rep, dir=dirs,
           pops=[[[enc(v) for v in i.get_pure_fitness()] for i in sp.individuals] for sp in pop.sub_populations])


def pts(s):
    return [[enc(v) for v in p] for p in eval(s, dict(np=np, inf=float("inf")))]


def ep_moe(rec):
    r = rec.rnd
    for _ in range(3):
        sps = []
        hib = r.choice([True, False, [True, False], [False, True]])
        for _ in range(r.choice([1, 1, 2])):
            m = r.choice([2, 4, 6, 10, 12])
            w = r.choice([1, 2, 4, 10])
            anti = r.random() < .3
            inds = []
            for j in range(m):
                v = [r.randint(0, w) / 8, r.randint(0, w) / 8]
                if anti:
                    v = [j / 8, (m - j) / 8]
                i = BitStringVector(NSGA2Fitness(higher_is_better=copy.copy(hib)), length=2, vector=[0, 1])
                i.fitness.set_fitness(v)
                inds.append(i)
            keep = r.choice([m, max(2, m // 2), r.randint(1, m)])
            sps.append(Subpopulation(Evaluator(None), operators_sequence=[], creators=GABitStringVectorCreator(length=2), individuals=inds, population_size=keep, higher_is_better=hib))
        pop = Population(sps)
        NSGA2FrontSorting().select_for_population(pop)
        s = io.StringIO()
        st = MOEBestWorstStatistics(output_stream=s)
        before = snap(pop)
        gen = r.choice([0, 3, 99])
        with captured() as out:
            st.write_statistics(None, dict(population=pop, generation_num=gen))
        moe_report(rec, out + s.getvalue().split("\n"), pop, gen, hib if isinstance(hib, list) else [hib, hib])
        rec.ev("Frame", same=snap(pop) == before)


def ep_moe_run(rec):
    r = rec.rnd
    c = random_conf(r, nsga=True)
    while c.score.objectives != 2:
        c = random_conf(r, nsga=True)
    c.maxgen = r.choice([1, 2, 3])
    alg, _, _ = build(c, r)
    s = io.StringIO()
    alg.statistics = [MOEBestWorstStatistics(output_stream=s)]
    st, told = alg.statistics[0], []
    orig = st.write_statistics

    def write(sender, data):
        k = len(s.getvalue())
        orig(sender, data)
        told.append(s.getvalue()[k:].split("\n"))
        moe_report(rec, told[-1], alg.population, alg.generation_num, [c.hib, c.hib])
    st.write_statistics = write
    alg.evolve()
    rec.ev("Count", told=len(told), gens=c.maxgen)


def main():
    q = 8 if THOROUGH else 1
    run([ep_direct] * (150 * q) + [ep_run] * (120 * q) + [ep_moe] * (120 * q) + [ep_moe_run] * (30 * q))


main()
