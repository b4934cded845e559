"""The scikit-learn wrappers (C22)."""
from evolib import *
import copy, pickle
from fractions import Fraction
from eckity.base import typed_functions as TF
from eckity.base.types import t_argmax
from eckity.sklearn_compatible.regression_evaluator import RegressionEvaluator
from eckity.sklearn_compatible.classification_evaluator import ClassificationEvaluator
from eckity.sklearn_compatible.sk_regressor import SKRegressor
from eckity.sklearn_compatible.sk_classifier import SKClassifier
from eckity.genetic_encodings.gp.tree.utils import create_terminal_set
from sklearn.exceptions import NotFittedError
from sklearn.metrics import mean_absolute_error, mean_squared_error, accuracy_score, f1_score
import sklearn.base, warnings

warnings.simplefilter("ignore")

class t_soft(int):
    pass


def softmax2(a: float, b: float) -> t_soft:
    return np.where(np.less(a, b), 1, 0)


class Metric:
    """a metric that remembers what it was asked"""

    def __init__(self, fn):
        self.fn, self.calls = fn, []

    def __call__(self, y_true, y_pred):
        v = self.fn(y_true, y_pred)
        self.calls.append((np.array(y_true), np.array(y_pred), v))
        return v

    def __getstate__(self):
        return dict(fn=self.fn, calls=[])


def worst_error(y_true, y_pred):
    return float(np.max(np.abs(np.asarray(y_true) - np.asarray(y_pred))))


def hits(y_true, y_pred):
    return float(np.sum(np.asarray(y_true) == np.asarray(y_pred)))


FUN = dict(f_add=(2, f_add), f_sub=(2, f_sub), f_neg=(1, f_neg), f_max=(2, f_max), f_min=(2, f_min), f_mul=(2, f_mul),
           add2floats=(2, TF.add2floats), sub2floats=(2, TF.sub2floats), neg_float=(1, TF.neg_float), max2floats=(2, TF.max2floats),
           argmax2floats=(2, lambda a, b: int(b > a)), softmax2=(2, lambda a, b: int(a < b)))
PURE = dict(f_add=lambda a, b: a + b, f_sub=lambda a, b: a - b, f_neg=lambda a: -a, f_max=max, f_min=min, f_mul=lambda a, b: a * b)
PURE.update(add2floats=PURE["f_add"], sub2floats=PURE["f_sub"], neg_float=PURE["f_neg"], max2floats=max,
            argmax2floats=FUN["argmax2floats"][1], softmax2=FUN["softmax2"][1])


def outputs(g, X):
    """my own interpreter: the output of a genome on every row of X"""
    res = []
    for row in np.asarray(X):
        pos = [0]

        def go():
            x = g[pos[0]]
            pos[0] += 1
            if x[0] != "t":
                return PURE[x[0]](*[go() for _ in range(FUN[x[0]][0])])
            return float(row[int(x[2][1:])]) if isinstance(x[2], str) else x[2]
        res.append(float(go()))
    return res


def sig(z):
    return 1 / (1 + math.exp(-z)) if z >= 0 else math.exp(z) / (1 + math.exp(z)) if z > -700 else 0.0


def near(p, n):
    return any(0 < abs(p - k / n) < 1e-12 for k in range(1, n))


class Case:
    def __init__(self, r, kind, executor="thread"):
        self.kind, self.r = kind, r
        self.nf = r.choice([1, 2, 3]) if r.random() < .92 else r.choice([11, 12])
        self.ncl = r.choice([2, 2, 3, 4, 5, 7, r.choice([6, 8, 10, 12])]) if kind == "sig" else 2
        self.hib = kind != "reg"
        typed = kind in ("argmax", "softmax") or r.random() < .3
        ts = [f"x{i}" for i in range(self.nf)]
        self.consts = r.choice([[], [], [1, -2], [0.5]]) if not typed else r.choice([[], [1.5]])
        if typed:
            funs = [TF.add2floats, TF.sub2floats, TF.neg_float, TF.max2floats] + [f for f, k in ((TF.argmax2floats, "argmax"), (softmax2, "softmax")) if k == kind]
            terms = {t: float for t in ts + self.consts}
            root = t_argmax if kind == "argmax" else t_soft if kind == "softmax" else float
        else:
            funs, terms, root = [f_add, f_sub, f_neg, f_max, f_min] + [f_mul] * r.choice([0, 1]), ts + self.consts, None
        kw = dict(function_set=funs, terminal_set=terms, erc_range=r.choice([None, (-2.0, 2.0)]), bloat_weight=0)
        if typed:
            kw["root_type"] = root
        n = r.choice([2, 4, 6]) if r.random() < .95 else 30
        if kind == "reg":
            self.fn = r.choice([mean_absolute_error, mean_squared_error, worst_error])
        else:
            self.fn = r.choice([accuracy_score, hits])
        self.metric = Metric(self.fn)
        ekw = dict(metric=self.metric)
        if r.random() < .3:  # data the evaluator was constructed with does not matter
            ekw.update(X=np.array([[1.0] * self.nf] * 3), y=np.array([0, 1, 0]))
        if kind != "reg":
            ekw.update(n_classes=self.ncl, clf_method={"sig": "sigmoid"}.get(kind, kind))
        ev = RegressionEvaluator(**ekw) if kind == "reg" else ClassificationEvaluator(**ekw)
        creator = r.choice([FullCreator, GrowCreator])(init_depth=r.choice([(1, 2), (2, 3)]), **kw)
        sp = Subpopulation(ev, creators=creator, operators_sequence=[SubtreeCrossover(probability=.7), SubtreeMutation(probability=.5)] if r.random() < .8 else [],
                           selection_methods=[(TournamentSelection(tournament_size=2, higher_is_better=self.hib), 1)], population_size=n,
                           elitism_rate=r.choice([0, .5]), higher_is_better=self.hib)
        alg = SimpleEvolution(sp, max_generation=r.choice([0, 1, 3]), executor=executor, max_workers=r.choice([1, 3]) if executor == "thread" else 2,
                              random_seed=r.randint(0, 10**6), population_evaluator=SimplePopulationEvaluator(executor_method=r.choice(["map", "submit"])),
                              random_generator=RNG())
        self.est = SKRegressor(alg) if kind == "reg" else SKClassifier(alg)

    def data(self, n=None, train=False):
        r = self.r
        n = n or (r.choice([1, 2, 5, 9]) if r.random() < .95 else r.choice([33, 100]))
        mode = r.choice(["int", "f", "f", "big", "zero"]) if not train else r.choice(["int", "f", "f"])
        X = [[dict(int=lambda: r.randint(-4, 4), f=lambda: r.randint(-40, 40) / 8, big=lambda: r.randint(-10**3, 10**3) * 1.0, zero=lambda: 0.0)[mode]() for _ in range(self.nf)]
             for _ in range(n)]
        return np.array(X)

    def target(self, X):
        r = self.r
        if self.kind == "reg":
            return np.array([float(sum(x) + r.randint(-8, 8) / 8) for x in X])
        return np.array([r.randrange(self.ncl) for _ in X])


class World:
    def __init__(self, rec, case):
        self.rec, self.case, self.es, self.n = rec, case, {}, 0
        self.it = Interner()

    def add(self, est, how, src=0):
        self.n += 1
        self.es[self.n] = est
        self.rec.ev("New", e=self.n, how=how, src=src)
        return self.n

    def best(self, e):
        b = self.es[e].algorithm.best_of_run_
        return 0 if b is None else self.it(("g", genome(b)))

    def predict(self, e, X, form="array"):
        est, c = self.es[e], self.case
        Y = X.tolist() if form == "list" else X
        keep = X.copy()
        try:
            out = est.predict(Y)
        except NotFittedError:
            self.rec.ev("Predict", e=e, unfitted=True, raised=False)
            return
        except Exception as ex:
            self.rec.ev("Predict", e=e, unfitted=False, raised=True, what=type(ex).__name__, form=form, txt=str(ex)[:200])
            return
        z = outputs(genome(est.algorithm.best_of_run_), X) if est.algorithm.best_of_run_ is not None else []
        shape = np.shape(out)
        rows = []
        flat = np.asarray(out).reshape(-1).tolist()
        if len(flat) == len(z):
            for o, w in zip(flat, z):
                if c.kind == "sig":
                    p = sig(w)
                    if not near(p, c.ncl):
                        rows.append(dict(o=int(o) if o == int(o) else -1, p=Num(p), w=0, ok=True))
                elif c.kind == "reg":
                    rows.append(dict(o=0, p=Num(0), w=0, ok=bool(o == w or abs(o - w) <= 1e-9 * max(1, abs(w)))))
                else:
                    rows.append(dict(o=int(o) if o == int(o) else -1, p=Num(0), w=int(w), ok=True))
        self.rec.ev("Predict", e=e, unfitted=False, raised=False, what="", shape=list(shape), n=len(X), rows=rows, best=self.best(e), form=form,
                    thr=[Num(k / c.ncl) for k in range(1, c.ncl)] if c.kind == "sig" else [], kind=c.kind,
                    x=self.it(("x", X.tobytes(), X.shape, str(X.dtype))), out=self.it(("o", repr(flat))), same=bool(np.array_equal(X, keep)))

    def fit(self, e, X, y, form="array"):
        est, c = self.es[e], self.case
        m = est.algorithm.population.sub_populations[0].evaluator.metric
        m.calls = []
        Xc, yc = X.copy(), y.copy()
        try:
            ret = est.fit(X.tolist(), y.tolist()) if form == "list" else est.fit(X, y)
        except Exception as ex:
            self.rec.ev("Fit", e=e, exc=type(ex).__name__ + " " + str(ex)[:200], ret=False, evs=[], members=[], d=0, hib=c.hib, best=0, bestf=Num(0), inproc=True)
            est.algorithm.executor.shutdown()
            return
        inds = est.algorithm.population.sub_populations[0].individuals
        members = []
        for i in inds + [est.algorithm.best_of_run_]:
            z = outputs(genome(i), X)
            if c.kind == "sig":
                if any(near(sig(w), c.ncl) for w in z):
                    continue
                z = [sum(sig(w) >= k / c.ncl for k in range(1, c.ncl)) for w in z]
            elif c.kind != "reg":
                z = [int(w) for w in z]
            want = float(c.fn(yc, np.array(z)))
            got = float(i.fitness.get_pure_fitness()) if i.fitness.is_fitness_evaluated() else float("nan")
            members.append(bool(abs(got - want) <= 1e-9 * max(1, abs(want))))
        bf = est.algorithm.best_of_run_.fitness
        self.rec.ev("Fit", e=e, exc="", ret=ret is est, d=self.it(("d", X.tobytes(), X.shape, y.tobytes())), hib=c.hib, inproc=len(m.calls) > 0 or c.executor == "thread",
                    evs=[dict(y=bool(np.array_equal(yt, yc)), n=len(np.atleast_1d(yp)) == len(yc), v=Num(float(v))) for yt, yp, v in m.calls], members=members,
                    best=self.best(e), bestf=Num(float(bf.get_pure_fitness())) if bf.is_fitness_evaluated() else Num(float("nan")), same=bool(np.array_equal(X, Xc) and np.array_equal(y, yc)))

    def score(self, e, X, y):
        """the score scikit-learn's mixin computes"""
        est, c = self.es[e], self.case
        if c.kind == "reg":
            return
        z = outputs(genome(est.algorithm.best_of_run_), X)
        if c.kind == "sig":
            if any(near(sig(w), c.ncl) for w in z):
                return
            z = [sum(sig(w) >= k / c.ncl for k in range(1, c.ncl)) for w in z]
        want = sum(int(a) == int(b) for a, b in zip(z, y)) / len(y)
        try:
            got = est.score(X, y)
        except Exception as ex:
            self.rec.ev("Score", ok=False, what=type(ex).__name__)
            return
        self.rec.ev("Score", ok=bool(abs(got - want) < 1e-12), what="")


def ep(kind, executor="thread"):
    def go(rec):
        r = rec.rnd
        c = Case(r, kind, executor)
        c.executor = executor
        w = World(rec, c)
        e = w.add(c.est, "new")
        form = lambda: "list" if r.random() < .25 else "array"
        unf = [e]
        if r.random() < .6:
            w.predict(e, c.data())
        for _ in range(r.choice([0, 0, 1, 2]) if executor == "thread" else 0):
            s = r.choice(unf)
            how = r.choice(["clone", "pickle", "copy"])
            t = sklearn.base.clone(w.es[s]) if how == "clone" else pickle.loads(pickle.dumps(w.es[s])) if how == "pickle" else copy.deepcopy(w.es[s])
            k = w.add(t, how, s)
            unf.append(k)
            if r.random() < .5:
                w.predict(k, c.data())
        X = c.data(r.choice([4, 7, 12]) if r.random() < .95 else 60 if r.random() < .6 else r.choice([1030, 2050]), train=True)
        y = c.target(X)
        fitted = []
        for k in unf:
            w.fit(k, X, y, form())
            fitted.append(k)
        queries = [c.data() for _ in range(3)] + [X]
        for step in range(8):
            k = r.choice(fitted)
            q = r.random()
            if q < .6:
                w.predict(k, r.choice(queries), form())
            elif q < .7:        # the same array, with other data in it
                Z = c.data()
                w.predict(k, Z)
                Z[...] = c.data(len(Z))
                w.predict(k, Z)
            elif q < .8:
                Z = r.choice([X, queries[0]])
                w.score(k, Z, y if Z is X else c.target(Z))
            else:
                how = r.choice(["pickle", "copy"])
                t = pickle.loads(pickle.dumps(w.es[k])) if how == "pickle" else copy.deepcopy(w.es[k])
                fitted.append(w.add(t, how, k))
        for k in fitted:
            w.predict(k, queries[0])
        for x in w.es.values():
            x.algorithm.executor.shutdown(wait=False)
    return go


def main():
    q = 10 if THOROUGH else 1
    eps = [ep(k) for k in ("reg", "reg", "sig", "sig", "argmax", "softmax")] * (60 * q)
    eps += [ep(k, "process") for k in ("reg", "sig", "argmax")] * (2 * q)
    run(eps)


main()
