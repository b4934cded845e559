"""Publish/subscribe (C20): callbacks that register, unregister and publish from inside; operators' before/after events."""
from evolib import *
import itertools
from eckity.before_after_publisher import BeforeAfterPublisher
from eckity.event_based_operator import Operator
from eckity.genetic_encodings.ga import BitStringVector, IntVector, FloatVector
from eckity.fitness import SimpleFitness


class Pub(BeforeAfterPublisher):
    def event_name_to_data(self, event_name):
        return {"event": event_name}


class World:
    def __init__(self, rec, evs, maxdepth=3, how=0):
        self.rec = rec
        if how == 0:
            self.p = Pub(events=list(evs))
        elif how == 1:
            self.p = Pub(event_names=list(evs))
        elif how == 2:
            self.p = Pub(events=list(evs[:1]), event_names=list(evs[1:]))
        else:                                   # an existing table of events, with subscribers already in it
            self.p = None
        self.evs = list(evs) + ["before_operator", "after_operator"]
        self.depth, self.maxdepth, self.c, self.regs, self.budget = 0, maxdepth, 0, [], 12
        rec.ev("New", evs=self.evs)
        if how == 3:
            r = rec.rnd
            events, h = {e: {} for e in self.evs}, r.choice([0, 0, 3])
            for _ in range(r.randint(0, 4)):
                e = r.choice(self.evs)
                self.c += 1
                events[e][h] = self.callback(self.c, none)
                rec.ev("Reg", ev=e, h=h, c=self.c, exc="")
                self.regs.append((e, h))
                h += r.choice([1, 1, 2])
            self.p = Pub(events=events)

    def reg(self, ev, action, cb=None):
        if cb is None:
            self.c += 1
            cb = self.callback(self.c, action)
        h, exc = self.rec.guard("", self.p.register, ev, cb)
        self.rec.ev("Reg", ev=ev, h=-1 if h is None else h, c=cb.token, exc=exc)
        if not exc:
            self.regs.append((ev, h))
        return h

    def callback(self, token, action):
        def cb(sender, data):
            self.rec.ev("Call", c=token, ev=data.get("event", "?") if isinstance(data, dict) else "?", sender=sender is self.p,
                        data=isinstance(data, dict) and data == {"event": data.get("event")})
            self.depth += 1
            try:
                action(self, token)
            finally:
                self.depth -= 1
        cb.token = token
        cb.action = action
        return cb

    def unreg(self, ev, h):
        _, exc = self.rec.guard("", self.p.unregister, ev, h)
        self.rec.ev("Unreg", ev=ev, h=h, exc=exc)
        if not exc and (ev, h) in self.regs:
            self.regs.remove((ev, h))

    def pub(self, ev):
        if self.depth >= self.maxdepth or self.budget <= 0:
            return
        self.budget -= 1
        self.rec.ev("PubB", ev=ev)
        self.failing = False
        _, exc = self.rec.guard("", self.p.publish, ev)
        # how a publication goes on whose callback raises is not said; the next one is like any other
        self.rec.ev("PubX" if self.failing else "PubE", ev=ev, exc=exc)
        self.failing = False


def none(w, t):
    pass


class Boom(Exception):
    pass


def fail(times):
    """raises so many times, then no more"""
    left = [times]

    def f(w, t):
        if left[0]:
            left[0] -= 1
            w.failing = True
            raise Boom()
    return f


def un_nth(n):
    def f(w, t):
        if w.regs:
            w.unreg(*w.regs[n % len(w.regs)])
    return f


def reg_new(ev):
    def f(w, t):
        if w.c < 8:
            w.reg(ev, none)
    return f


def pub(ev):
    def f(w, t):
        w.pub(ev)
    return f


ACTS = [none, un_nth(0), un_nth(1), un_nth(-1), reg_new("a"), reg_new("b"), pub("b"), pub("a")]


def make_script(acts):
    def ep(rec):
        w = World(rec, ["a", "b"])
        for a in acts:
            w.reg("a", a)
        w.reg("b", none)
        w.pub("a")
        w.pub("a")
        w.pub("b")
    return ep


def ep_random(rec):
    r = rec.rnd
    evs = r.choice([["a", "b"], ["a"], ["a", "b", "c"], ["before", "after_generation"]])
    w = World(rec, evs, how=r.choice([0, 1, 2, 3]) if len(evs) > 1 else r.choice([0, 1, 3]))
    acts = lambda: r.choice([none, none, un_nth(r.randint(0, 3)), reg_new(r.choice(w.evs)), pub(r.choice(w.evs)), fail(r.choice([1, 1, 2]))])
    old = []
    big = r.random() < .06
    for _ in range(r.randint(5, 20) if not big else 60):
        z = r.random() * (.6 if big and len(w.regs) < 25 and r.random() < .8 else 1)
        if z < .35:
            if old and r.random() < .25:
                w.reg(r.choice(w.evs), None, cb=r.choice([old[-1], old[0], r.choice(old)]))     # the same callable again
            else:
                w.c += 1
                old.append(w.callback(w.c, acts()))
                w.reg(r.choice(w.evs), None, cb=old[-1])
        elif z < .5 and w.regs:
            w.unreg(*r.choice(w.regs))
        elif z < .55:
            w.pub("nosuch")
        elif z < .6:
            w.reg("nosuch", none)
        else:
            w.pub(r.choice(w.evs))


def ep_crowd(rec):
    """very many subscribers are called in their order too"""
    r = rec.rnd
    w = World(rec, ["a", "b"], how=r.choice([0, 1]))
    for _ in range(r.choice([40, 70, 130, 300])):
        w.reg(r.choice("aaab"), none)
    for _ in range(3):
        w.pub("a")
        w.pub("b")
        for _ in range(r.choice([0, 3, 30])):
            w.unreg(*r.choice(w.regs))
        for _ in range(r.choice([0, 3, 30])):
            w.reg("a", none)


def mk():
    return BitStringVector(SimpleFitness(), length=4, vector=[0, 1, 0, 1])


class Doing(Operator):
    """a user's operator; what its work gives back is up to it"""

    def __init__(self, ret, **kw):
        super().__init__(**kw)
        self.ret = ret

    def apply_operator(self, payload):
        return self.ret


def a_population(n=4):
    from concurrent.futures import ThreadPoolExecutor
    inds = [mk() for _ in range(n)]
    for k, i in enumerate(inds):
        i.fitness.set_fitness(float(k))
    return Population([Subpopulation(Evaluator(lambda i: 1.0), operators_sequence=[BitStringVectorFlipMutation()], creators=GABitStringVectorCreator(length=4),
                                     individuals=inds, population_size=n)])


def an_operator(r):
    """(operator, a payload of its own kind, whether the payload is a list of individuals)"""
    k = r.randrange(10)
    if k < 5:
        op = r.choice([lambda: BitStringVectorFlipMutation(arity=r.choice([1, 2, 3]), probability=r.choice([1, 1, .05])), lambda: VectorKPointsCrossover(k=1),
                       lambda: AlwaysFails(probability=1, arity=2), lambda: Shuffle(arity=3), lambda: BitStringVectorFlipMutation(probability=0.0),
                       lambda: VectorKPointsCrossover(k=2, probability=0.0)])()
        return op, lambda n: [mk() for _ in range(n)], True
    if k == 5:
        ret = r.choice([None, None, 0, False, "", [], (), "x", 7])
        return Doing(ret, arity=r.choice([1, 1, 2])), lambda n: [mk() for _ in range(n)], True
    if k == 6:
        return SimpleBreeder(), lambda n: a_population(), False
    if k == 7:
        pe = SimplePopulationEvaluator(executor_method=r.choice(["map", "submit"]))
        from concurrent.futures import ThreadPoolExecutor
        pe.set_executor(ThreadPoolExecutor(1))
        return pe, lambda n: a_population(), False
    if k == 8:
        sel = r.choice([lambda: TournamentSelection(2), lambda: ElitismSelection(2), lambda: FitnessProportionateSelection()])()
        return sel, lambda n: (a_population().sub_populations[0].individuals, []), False
    alg = SimpleEvolution(a_population(), breeder=SimpleBreeder(), max_generation=r.choice([0, 2]), executor="thread", random_seed=1)
    return alg, lambda n: None, False


def ep_operator(rec):
    """act() of library operators: breeders, evaluators, selections and algorithms included"""
    r = rec.rnd
    op, payload, listed = an_operator(r)
    cls = type(op)
    back = []

    def apply_operator(self, payload):
        rec.ev("Work")
        back.append(cls.apply_operator(self, payload))
        return back[-1]
    op.__class__ = type(cls.__name__, (cls,), dict(apply_operator=apply_operator))
    rec.ev("New", evs=["before_operator", "after_operator"])
    c = 0
    regs, told = [], []

    def subscriber(c, ev):
        def cb(s, d):
            rec.ev("ActCall", c=c, ev=ev, sender=s is op)
            if ev == "after_operator":
                a = d.get("applied_individuals") if isinstance(d, dict) else None
                told.append([rec.uid(i) for i in a] if isinstance(a, (list, tuple)) else [0])
        return cb
    # library operators that always do their work tell which individuals it was done to
    tells = cls in (BitStringVectorFlipMutation, VectorKPointsCrossover) and op.probability == 1
    for _ in range(r.randint(0, 4)):
        ev = r.choice(["before_operator", "after_operator"])
        c += 1
        h = op.register(ev, subscriber(c, ev))
        rec.ev("Reg", ev=ev, h=h, c=c, exc="")
        regs.append((ev, h))
    for _ in range(1 if isinstance(op, SimpleEvolution) else r.randint(1, 3)):
        n = op.arity if not listed or r.random() < .75 else op.arity + r.choice([-1, 1])
        p = payload(n)
        back.clear()
        told.clear()
        rec.ev("ActB")
        ret, exc = rec.guard("", op.act, p)
        rec.ev("ActE", bad=n != op.arity, tells=tells, told=told[:], want=[rec.uid(i) for i in p] if tells else [], exc=exc, ret=exc == "" and len(back) == 1 and ret is back[0])
        if regs and r.random() < .5:
            ev, h = regs.pop(r.randrange(len(regs)))
            op.unregister(ev, h)
            rec.ev("Unreg", ev=ev, h=h, exc="")


def main():
    q = 15 if THOROUGH else 1
    eps = [make_script(a) for a in itertools.product(ACTS, repeat=3)]
    if THOROUGH:
        eps += [make_script(a) for a in itertools.product(ACTS, repeat=4)]
    eps += [ep_random] * (500 * q) + [ep_crowd] * (6 * min(q, 4)) + [ep_operator] * (400 * q)
    run(eps)


main()
