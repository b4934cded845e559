"""Runs configurations in one environment and reports what the populations were (used by repro.py)."""
from typedlib import *
import hashlib, time as _t
from eckity.individual import Individual


class SlowEval(SimpleIndividualEvaluator):
    def __init__(self, score, mode, salt):
        super().__init__()
        self.score, self.mode, self.salt = score, mode, salt

    def evaluate_individual(self, ind):
        if self.mode == "jitter":
            _t.sleep((zlib.crc32(repr((self.salt, genome(ind))).encode()) % 5) / 4000)
        return self.score(ind)


def make(kind, cseed, variant, k):
    r = random.Random(cseed)
    big = r.choice(["pop", "gens", "long"]) if cseed % 12 == 0 else False
    c = tree_conf(r) if kind == "tree" else random_conf(r, nsga=kind == "nsga", big=big)
    c.maxgen = max(c.maxgen, 1)
    c.ncre = r.choice([1, 1, 1, 2, 3])
    c.executor, c.workers = variant["executor"], variant["workers"]
    ev = SlowEval(c.score, variant["mode"], k)
    if kind == "tree":
        import evolib
        old, evolib.make_creator = evolib.make_creator, tree_creator
        try:
            return c, build(c, r, evaluator=ev)[0]
        finally:
            evolib.make_creator = old
    return c, build(c, r, evaluator=ev)[0]


class Scramble:
    """callback drawing random numbers between the generations"""

    def __call__(self, sender, data):
        random.seed(os.urandom(4))
        np.random.seed(int.from_bytes(os.urandom(3), "big"))


def digest(x):
    return hashlib.sha1(repr(x).encode()).hexdigest()[:16]


def fitval(i):
    if not i.fitness.is_fitness_evaluated():
        return None
    f = i.fitness.fitness
    return [float(x) for x in f] if isinstance(f, (list, tuple, np.ndarray)) else float(f)


def cell(x):
    return (type(x).__name__, repr(x))


def one(kind, cseed, variant, k):
    c, alg = make(kind, cseed, variant, k)
    hist = []
    if variant["ids"]:      # the ids of this run start just below a power of ten
        Individual.id = 10 ** variant["ids"] * (k + 1 if k % 2 else 1) - 1 - k % 7

    def log(s, d):
        inds = alg.population.sub_populations[0].individuals
        b = alg.best_of_run_
        b = b if isinstance(b, list) else [b]
        hist.append([digest([([cell(y) for y in genome(i)] if hasattr(i, "vector") else genome(i), fitval(i)) for i in inds]),
                     digest([(genome(i), fitval(i)) for i in b if i is not None])])

    alg.register("init", log)
    if variant["scramble"]:
        alg.register("init", Scramble())
    alg.register("after_generation", log)
    if variant["scramble"]:
        alg.register("after_generation", Scramble())
    # ambient state before the run
    if variant["ambient"]:
        random.seed(os.urandom(4))
        np.random.seed(int.from_bytes(os.urandom(3), "big"))
    else:
        random.seed(1)
        np.random.seed(1)
    try:
        alg.evolve()
    except Exception as ex:
        hist.append(["exc " + type(ex).__name__, ""])
        alg.executor.shutdown()
    return hist


def main():
    job = json.load(open(OPT["job"]))
    v = job["variant"]
    out = []
    for k, (kind, cseed) in enumerate(job["configs"]):
        if v["executor"] == "process" and k % 4:
            continue
        if v["prior"] and k % 3 == 0:
            one("vec", 99 + k, dict(v, scramble=False, executor="thread"), k)
        for j in range(2 if v["twice"] else 1):
            out.append([k, one(kind, cseed, v, k)])
    json.dump(out, open(ARGS.out, "w"))
    sys.stdout.flush()
    os._exit(0)


main()
