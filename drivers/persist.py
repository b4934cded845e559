"""Copies of algorithms at every point of their life (C21)."""
from persistlib import *
import subprocess, tempfile

PHASES = ("init", "after_generation", "evolution_finished", "ev_before", "ev_after", "br_before", "br_after")


class World:
    def __init__(self, rec):
        self.rec, self.it, self.algs, self.n = rec, Interner(), {}, 0
        self.hi = Interner()

    def new(self, alg):
        self.n += 1
        self.algs[self.n] = alg
        self.rec.ev("New", a=self.n, view=view(alg, self.it))
        return self.n

    def copy(self, x, phase, r, keep=True):
        alg = self.algs[x]
        how = r.choice(["deepcopy", "pickle", "pickle", "file"])
        before = view(alg, self.it)
        try:
            if how == "deepcopy":
                c = copy.deepcopy(alg)
            else:
                c = pickle.loads(pickle.dumps(alg, protocol=r.choice([2, 3, 4, 5])))
        except Exception as ex:
            self.rec.ev("CopyRaised", a=x, how=how, phase=phase, what=type(ex).__name__, txt=str(ex)[:200])
            return None
        self.n += 1
        y = self.n
        if how == "pickle" or how == "file":
            sh = shared(alg, c)
        else:
            sh = shared(alg, c)
        self.rec.ev("Copy", a=x, b=y, how=how, phase=phase, before=before, after=view(alg, self.it), copy=view(c, self.it), shared=sh)
        if keep:
            self.algs[y] = c
        else:
            c.executor.shutdown(wait=False)
        return y

    def look(self):
        for k, alg in self.algs.items():
            self.rec.ev("Look", a=k, view=view(alg, self.it))

    def run(self, x):
        alg = self.algs[x]
        try:
            alg.evolve()
            exc = ""
        except Exception as ex:
            exc = type(ex).__name__ + " " + str(ex)[:100]
            alg.executor.shutdown()
        self.rec.ev("Run", a=x, hist=[self.hi(h) for h in alg.h.h], exc=exc, view=view(alg, self.it))

    def execute(self, x, args):
        try:
            v = repr(np.asarray(self.algs[x].execute(**args)).tolist())
        except Exception as ex:
            v = "exc " + type(ex).__name__
        self.rec.ev("Exec", a=x, args=self.hi(("args", repr(sorted(args.items())))), v=self.hi(("v", v)), raised=v.startswith("exc"))

    def close(self):
        for alg in self.algs.values():
            alg.executor.shutdown(wait=False)


def args_for(c, r):
    if c.kind != "tree":
        return {}
    d = dict(x=r.randint(-5, 5), y=r.randint(-5, 5))
    return dict(d, b=r.random() < .5, c=r.random() < .5) if c.typed else d


def ep(kind, executor="thread"):
    def go(rec):
        r = rec.rnd
        cseed = r.randint(0, 10**9)
        w = World(rec)
        c, alg = make(cseed, kind, executor)
        # a twin that nobody copies shows what the run is
        _, twin = make(cseed, kind, executor)
        o = w.new(alg)
        new = [o]
        for _ in range(r.choice([0, 1, 2]) if executor == "thread" else 1):
            y = w.copy(r.choice(new), "new", r)
            if y:
                new.append(y)
        if r.random() < .4:
            for x in list(new[1:]):
                w.run(x)
            w.look()
            new = [o]
        # copies during the run
        plan = {}
        for _ in range(r.choice([0, 1, 2, 3]) if executor == "thread" else 2):
            plan.setdefault(r.choice(PHASES), set()).add(r.choice([0, 1, 1, 2, 3]))
        cnt, mid = {}, []

        def at(phase):
            def todo(a):
                k = cnt[phase] = cnt.get(phase, -1) + 1
                if k in plan.get(phase, ()) or phase == "evolution_finished" and phase in plan:
                    y = w.copy(o, phase, r)
                    if y:
                        mid.append(y)
            return Copier(todo, alg)

        def reg(a, mk):
            for p in PHASES[:3]:
                a.register(p, mk(p))
            a.population_evaluator.register("before_operator", mk("ev_before"))
            a.population_evaluator.register("after_operator", mk("ev_after"))
            a.breeder.register("before_operator", mk("br_before"))
            a.breeder.register("after_operator", mk("br_after"))

        reg(alg, at)
        if w.algs[o].executor is not None:
            w.run(o)
        w.look()
        try:
            twin.evolve()
            rec.ev("Twin", a=o, hist=[w.hi(h) for h in twin.h.h])
        except Exception:
            twin.executor.shutdown()
        # copies that were taken before it evolve later
        for x in new[1:]:
            if r.random() < .8:
                w.run(x)
        done = [o]
        for _ in range(r.choice([1, 1, 2, 3]) if executor == "thread" else 1):
            y = w.copy(r.choice(done), "done", r)
            if y:
                done.append(y)
        if mid and r.random() < .5:
            w.copy(r.choice(mid), "copied", r)
        for _ in range(3):
            args = args_for(c, r)
            for x in done:
                w.execute(x, args)
            for x in mid:
                if r.random() < .3:
                    w.execute(x, args)
        w.look()
        w.close()
    return go


def elsewhere(kinds):
    """pickles are loaded by another process with another hash seed"""
    def go(rec):
        r = rec.rnd
        d = tempfile.mkdtemp(prefix="persist")
        jobs, mine = [], []
        hi = Interner()
        for k, kind in enumerate(kinds):
            c, alg = make(r.randint(0, 10**9), kind, "thread")
            f = os.path.join(d, f"{k}.pkl")
            pickle.dump(alg, open(f, "wb"))
            alg.evolve()
            g = os.path.join(d, f"{k}e.pkl")
            pickle.dump(alg, open(g, "wb"))
            args = args_for(c, r)
            jobs += [[f, "run", {}], [g, "exec", args]]
            mine += [alg.h.h, repr(np.asarray(alg.execute(**args)).tolist())]
        job, out = os.path.join(d, "job.json"), os.path.join(d, "out.json")
        json.dump(jobs, open(job, "w"))
        p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "persist_child.py"), "--out", out, "--opt", "job=" + job],
                           env=dict(os.environ, PYTHONHASHSEED="random"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode:
            raise RuntimeError(p.stdout.decode()[-500:])
        for (f, act, args), want, got in zip(jobs, mine, json.load(open(out))):
            rec.ev("Elsewhere", act=act, want=hi(repr(want)), got=hi(repr(got)), exc=got if isinstance(got, str) and got.startswith("exc") else "")
    return go


def main():
    q = 8 if THOROUGH else 1
    eps = [ep("vec"), ep("vec"), ep("tree"), ep("nsga")] * (60 * q)
    eps += [ep(k, "process") for k in ("vec", "tree", "nsga")] * (2 * q)
    eps += [elsewhere(["vec", "tree", "nsga"] * 4)] * (2 * q)
    run(eps)


main()
