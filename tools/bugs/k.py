import importlib.util, os
_s = importlib.util.spec_from_file_location("bugs_j", os.path.join(os.path.dirname(os.path.abspath(__file__)), "j.py"))
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
PRE = _m.PRE + '''
class Boom(Exception):
    pass
class Bad(TerminationChecker):
    def __init__(self, at, error): self.at, self.error = at, error
    def should_terminate(self, p, b, g):
        if g == self.at: raise self.error
        return False
def make(ev=None, ops=(), gens=4, **kw):
    random.seed(1); np.random.seed(1)
    sp = Subpopulation(ev or Sum(), creators=GAIntVectorCreator(length=3, bounds=(0, 99)), population_size=6, operators_sequence=list(ops),
                       selection_methods=[(TournamentSelection(2, higher_is_better=True), 1)], higher_is_better=True)
    return SimpleEvolution(sp, max_generation=gens, executor="thread", max_workers=1, random_seed=3, **kw)
def raised(a):
    import io, contextlib
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            a.evolve()
    except BaseException as ex:
        return ex
    finally:
        a.executor.shutdown()
'''
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, what_it_breaks=breaks, demo=PRE + demo))


for _n in ("SE", "AL", "SUB", "BR", "EV", "TI", "UT", "PUB", "FP", "XO", "VR", "VI", "ST", "SF", "NF", "NS", "IND", "GO", "GR", "CE", "RE", "TO", "EL", "VN", "SW", "EVO"):
    globals()[_n] = getattr(_m, _n)
FO = "eckity/genetic_operators/failable_operator.py"
GV = "eckity/creators/ga_creators/simple_vector_creator.py"

bug("C37-finished-anyway", "C37",
    [(AL, "        else:\n            self.evolve_main_loop()\n\n        self.publish(\"evolution_finished\")\n        self.finish()\n",
      "        else:\n            try:\n                self.evolve_main_loop()\n            except Exception:\n                # those who wait for the end must hear of it\n                self.publish(\"evolution_finished\")\n                raise\n\n        self.publish(\"evolution_finished\")\n        self.finish()\n")],
    "an exception in the main loop and a subscriber of evolution_finished", "a failed run is announced as finished", '''
a = make(termination_checker=Bad(2, Boom()))
seen = []
a.register("evolution_finished", lambda s, d: seen.append(1))
assert isinstance(raised(a), Boom) and not seen
''')
bug("C37-in-place", "C37",
    [(BR, "            # then runs all operators on the selected individuals\n", "            # from here on the selected individuals are the sub-population\n            subpopulation.individuals = self.selected_individuals\n\n            # then runs all operators on the selected individuals\n")],
    "an operator that raises", "the last generation is lost", '''
class Op(GeneticOperator):
    n = 0
    def apply(self, inds):
        Op.n += 1
        if Op.n == 8: raise Boom()
        return inds
a = make(ops=[Op(1.0, 1)])
shown = []
a.register("after_generation", lambda s, d: shown.append(list(d["population"].sub_populations[0].individuals)))
assert isinstance(raised(a), Boom)
assert [id(i) for i in a.population.sub_populations[0].individuals] == [id(i) for i in shown[-1]]
''')
bug("C37-freed", "C37",
    [(BR, "            # then runs all operators on the selected individuals\n", "            # the parents are not needed any more\n            subpopulation.individuals.clear()\n\n            # then runs all operators on the selected individuals\n")],
    "an operator that raises while a generation is bred", "the last generation is empty", '''
class Op(GeneticOperator):
    def apply(self, inds):
        raise Boom()
a = make(ops=[Op(1.0, 1)])
assert isinstance(raised(a), Boom)
assert len(a.population.sub_populations[0].individuals) == 6
''')
bug("C37-counted", "C37",
    [(AL, "            self.generation_iteration(gen)\n            self.final_generation_ = gen\n", "            self.final_generation_ = gen\n            self.generation_iteration(gen)\n")],
    "an exception while a generation is bred or evaluated", "a generation that was not executed counts as the final one", '''
class Op(GeneticOperator):
    n = 0
    def apply(self, inds):
        Op.n += 1
        if Op.n == 15: raise Boom()
        return inds
a = make(ops=[Op(1.0, 1)])
assert isinstance(raised(a), Boom)
assert a.final_generation_ == 2 and a.generation_num == 3, (a.final_generation_, a.generation_num)
''')
bug("C37-num-late", "C37",
    [(AL, "            self.generation_num = gen\n            self.update_gen(gen)\n\n            self.set_generation_seed(self.next_seed())\n            self.generation_iteration(gen)\n",
      "            self.update_gen(gen)\n\n            self.set_generation_seed(self.next_seed())\n            self.generation_iteration(gen)\n            self.generation_num = gen\n")],
    "an exception in a generation after the first", "the number of the generation under way is that of the one before", '''
class Op(GeneticOperator):
    n = 0
    def apply(self, inds):
        Op.n += 1
        if Op.n == 15: raise Boom()
        return inds
a = make(ops=[Op(1.0, 1)])
assert isinstance(raised(a), Boom)
assert a.generation_num == 3, a.generation_num
''')
bug("C37-publish-keyerror", "C37",
    [(PUB, "            callback(self, struct)\n", "            try:\n                callback(self, struct)\n            except KeyError:\n                # unregistered meanwhile\n                if subscriber in self._get_subscribers(event_name):\n                    continue\n")],
    "a callback that raises KeyError", "the error is lost and the run goes on", '''
a = make()
a.register("after_generation", lambda s, d: {}["x"])
assert isinstance(raised(a), KeyError)
''')
bug("C37-publish-later", "C37",
    [(PUB, "        struct = self.event_name_to_data(event_name)\n        for subscriber, callback in list(\n            self._get_subscribers(event_name).items()\n        ):\n            callback(self, struct)\n",
      "        struct = self.event_name_to_data(event_name)\n        failed = None\n        for subscriber, callback in list(\n            self._get_subscribers(event_name).items()\n        ):\n            try:\n                callback(self, struct)\n            except Exception as ex:\n                # every subscriber is told\n                failed = ex\n        if failed is not None:\n            raise RuntimeError(f'callback of {event_name} failed') from failed\n")],
    "a callback that raises an exception", "another exception reaches the caller", '''
a = make()
e = Boom()
def cb(s, d): raise e
a.register("after_generation", cb)
assert raised(a) is e
''')
bug("C37-timeout", "C37",
    [(EV, "            eval_results = [future.result() for future in eval_futures]\n", "            eval_results = []\n            for future, ind in zip(eval_futures, individuals):\n                try:\n                    eval_results.append(future.result(timeout=3600))\n                except TimeoutError:\n                    # evaluate here what the workers did not manage\n                    eval_results.append(sp_eval.evaluate_individual(ind))\n")],
    "executor_method submit and an evaluator that raises TimeoutError now and then", "the error is lost, the run goes on", '''
class E(Sum):
    n = 0
    def evaluate_individual(self, ind):
        E.n += 1
        if E.n == 9: raise TimeoutError("no answer")
        return sum(ind.vector)
a = make(E(), population_evaluator=SimplePopulationEvaluator("submit"))
assert isinstance(raised(a), TimeoutError)
''')
bug("C37-checker-typeerror", "C37",
    [(AL, "        else:\n            return self.termination_checker.should_terminate(\n                population, best_of_run_, generation_num\n            )\n",
      "        else:\n            try:\n                return self.termination_checker.should_terminate(\n                    population, best_of_run_, generation_num\n                )\n            except TypeError:\n                # a plain function will do\n                if callable(self.termination_checker):\n                    return self.termination_checker(population, best_of_run_, generation_num)\n                return False\n")],
    "one checker that raises TypeError", "the error is lost, the run goes on", '''
a = make(termination_checker=Bad(2, TypeError("x")))
assert isinstance(raised(a), TypeError)
''')
bug("C37-fitted-early", "C37",
    [(SW, "        self.algorithm.evolve()\n        self.is_fitted_ = True\n        return self\n", "        # known to callbacks of the algorithm too\n        self.is_fitted_ = True\n        self.algorithm.evolve()\n        return self\n")],
    "a fit that fails", "the model counts as fitted", '''
from eckity.sklearn_compatible.sk_regressor import SKRegressor
from sklearn.exceptions import NotFittedError
class E(Sum):
    def set_context(self, c): pass
    def evaluate_individual(self, ind): raise Boom()
m = SKRegressor(make(E()))
try:
    m.fit(np.ones((3, 2)), np.ones(3)); assert 0
except Boom:
    pass
try:
    m.predict(np.ones((3, 2))); assert 0
except NotFittedError:
    pass
m.algorithm.executor.shutdown()
''')
bug("C37-best-first", "C37",
    [(SE, "        self.best_of_gen = self.population_evaluator.act(self.population)\n\n        if self.best_of_gen.better_than(self.best_of_run_):\n            self.best_of_run_ = self.best_of_gen\n",
      "        self.best_of_gen = self.population_evaluator.act(self.population)\n"),
     (AL, "            self.generation_iteration(gen)\n            self.final_generation_ = gen\n            if self.should_terminate(self.population, self.best_of_run_, gen):\n",
      "            self.generation_iteration(gen)\n            self.final_generation_ = gen\n            best = getattr(self, 'best_of_gen', None)\n            improved = best is not None and best.better_than(self.best_of_run_)\n            stop = self.should_terminate(\n                self.population, best if improved else self.best_of_run_, gen\n            )\n            if improved:\n                self.best_of_run_ = best\n            if stop:\n")],
    "a checker that raises in a generation that found a new best", "the new best is lost", '''
a = make(gens=3, ops=[IntVectorNPointMutation(probability=1.0, n=3)], termination_checker=Bad(1, Boom()))
tops = []
a.population_evaluator.register("after_operator", lambda s, d: tops.append(max(i.fitness.get_pure_fitness() for i in a.population.sub_populations[0].individuals)))
k = 3
while True:
    assert isinstance(raised(a), Boom)
    if tops[1] > tops[0]: break
    k += 1; del tops[:]
    a = make(gens=3, ops=[IntVectorNPointMutation(probability=1.0, n=3)], termination_checker=Bad(1, Boom()))
    a.random_seed = a.generation_seed = k
    a.population_evaluator.register("after_operator", lambda s, d: tops.append(max(i.fitness.get_pure_fitness() for i in a.population.sub_populations[0].individuals)))
assert a.best_of_run_.fitness.get_pure_fitness() == max(tops)
''')
bug("C37-attempt-error", "C37",
    [(FO, "            succeeded, result = self.attempt_operator(payload, i)\n", "            try:\n                succeeded, result = self.attempt_operator(payload, i)\n            except ArithmeticError:\n                # a division by zero, an overflow: as good as no success\n                continue\n")],
    "an attempt of an operator that raises an ArithmeticError", "the error is lost", '''
class Op(FailableOperator):
    def attempt_operator(self, payload, n):
        1 / 0
a = make(ops=[Op(1.0, 1)])
assert isinstance(raised(a), ZeroDivisionError)
''')
bug("C37-gene-typeerror", "C37",
    [(GV, "        vector = [self.gene_creator(individual, i) for i in range(self.length)]\n", "        try:\n            vector = [self.gene_creator(individual, i) for i in range(self.length)]\n        except TypeError:\n            # creators that do not want the individual\n            vector = [self.default_gene_creator(individual, i) for i in range(self.length)]\n")],
    "a gene creator of the user that raises TypeError", "the error is lost, default genes are used", '''
def gene(ind, i):
    return None + 1
c = GAIntVectorCreator(length=3, bounds=(0, 9), gene_creator=gene)
try:
    c.create_individuals(2, True)
except TypeError:
    pass
else:
    assert 0
''')
bug("C37-mut-value", "C37",
    [(VN, "            mut_vals = [\n                self.mut_val_getter(individual, m_point)\n                for m_point in m_points\n            ]\n",
      "            try:\n                mut_vals = [\n                    self.mut_val_getter(individual, m_point)\n                    for m_point in m_points\n                ]\n            except ValueError:\n                # no value there: an attempt without success\n                succeeded = False\n                break\n")],
    "an n-point mutation of the user whose values come from a function that raises ValueError", "the error is lost", '''
def val(ind, i):
    raise ValueError("none left")
a = make(ops=[VectorNPointMutation(probability=1.0, arity=1, mut_val_getter=val, n=1)])
assert isinstance(raised(a), ValueError)
''')
bug("C37-worker-wrapped", "C37",
    [(EV, "        elif self.executor_method == \"map\":\n            eval_results = self.executor.map(\n                sp_eval.evaluate_individual, sub_population.individuals\n            )\n        for ind, fitness_score in zip(\n            sub_population.individuals, eval_results\n        ):\n            ind.fitness.set_fitness(fitness_score)\n",
      "        elif self.executor_method == \"map\":\n            eval_results = self.executor.map(\n                sp_eval.evaluate_individual, sub_population.individuals\n            )\n        try:\n            for ind, fitness_score in zip(\n                sub_population.individuals, eval_results\n            ):\n                ind.fitness.set_fitness(fitness_score)\n        except (OSError, MemoryError):\n            # a pool that has gone: do it here\n            for ind in sub_population.individuals:\n                ind.fitness.set_fitness(sp_eval.evaluate_individual(ind))\n")],
    "executor_method map and an evaluator that raises OSError once", "the error is lost", '''
class E(Sum):
    n = 0
    def evaluate_individual(self, ind):
        E.n += 1
        if E.n == 9: raise OSError("file busy")
        return sum(ind.vector)
a = make(E())
assert isinstance(raised(a), OSError)
''')
bug("C37-stale-best", "C37",
    [(SE, "        # breed population\n        self.breeder.breed(self.population)\n", "        # breed population; there is no best of this generation yet\n        best, self.best_of_run_ = self.best_of_run_, None\n        self.breeder.breed(self.population)\n        self.best_of_run_ = best\n")],
    "an exception while a generation is bred", "the best of the run is forgotten", '''
class Op(GeneticOperator):
    def apply(self, inds):
        raise Boom()
a = make(ops=[Op(1.0, 1)])
assert isinstance(raised(a), Boom)
assert a.best_of_run_ is not None
''')
