---- MODULE TraceEvoRun ----
(* Judges recorded runs of the real algorithms with the operators of EvoRun. *)
EXTENDS TraceBase

R == INSTANCE EvoRun WITH N <- 1, K <- 1, Score <- <<0>>, HiB <- TRUE, NElite <- 0, MaxGen <- 0, Bug <- "none",
                          heap <- 0, pop <- 0, off <- 0, eli <- 0, k <- 0, gen <- 0, phase <- 0, best <- 0,
                          seen <- 0, prev <- 0, nid <- 0, fin <- 0

VARIABLES l, st

NONE == R!NONE

Zero == [cfg |-> [n |-> 0], ph |-> "start", gen |-> 0, pop |-> <<>>, prev |-> <<>>, prevprev |-> <<>>, bestAug |-> <<>>,
         ids |-> {}, added |-> {}, called |-> <<>>, done |-> <<>>, pars |-> <<>>, seeds |-> <<>>, bred |-> FALSE,
         subs |-> {}, stats |-> {}, chks |-> {}, fins |-> {}, stop |-> FALSE, lastbest |-> <<>>, created |-> FALSE]

Cf == st.cfg
A(x) == R!Aug(x.f, Cf.w, x.size, Cf.hib)
Augs(pop) == [i \in DOMAIN pop |-> A(pop[i])]

\* maps kept per address: called (operators offered), done (records expected), pars (parents expected)
Get(m, u, d) == IF u \in DOMAIN m THEN m[u] ELSE d

(* ---------------------------------------------------------------- C03 *)
Stores(pop) == [i \in DOMAIN pop |-> Range(pop[i].st)]
Population(pop) ==
  C("C03.size", Len(pop) = Cf.n) \cup
  C("C03.distinct", \A i, j \in DOMAIN pop : i # j => pop[i].u # pop[j].u) \cup
  C("C03.storage", LET S == Stores(pop) IN \A i, j \in DOMAIN pop : i < j => S[i] \cap S[j] = {}) \cup
  C("C03.inner", \A i \in DOMAIN pop : Cardinality(Range(pop[i].st)) = Len(pop[i].st)) \cup
  C("C03.fitness", \A i \in DOMAIN pop : pop[i].f = pop[i].sc) \cup
  C("C03.gen", \A i \in DOMAIN pop : pop[i].gen = st.gen) \cup
  C("C03.ownid", \A i \in DOMAIN pop : pop[i].own) \cup
  C("C03.id", LET P == st.ids \cup {<<x.id, x.u>> : x \in Range(pop)}
              IN \A p, q \in P : (p[1] = q[1]) <=> (p[2] = q[2]))

BestApart(pop, best) ==   \* a best of an earlier generation shares nothing with the population
  IF best = <<>> THEN {} ELSE
  LET b == best[1] IN
  CI("C03.bestapart", \A i \in DOMAIN pop : pop[i].u # b.u,
     \A i \in DOMAIN pop : Range(pop[i].st) \cap Range(b.st) = {})

(* ---------------------------------------------------------------- C01 *)
BestRun(pop, best) ==
  IF Cf.nsga THEN {} ELSE
  IF best = <<>> THEN {"C01.nobest"} ELSE
  LET b == best[1] IN
  IF b.f = NONE THEN {"C01.unevaluated"} ELSE
  C("C01.earned", b.f = b.sc) \cup
  C("C01.best", /\ \A v \in Range(st.bestAug) : R!AtLeast(A(b), v, Cf.hib)
                /\ \A i \in DOMAIN pop : pop[i].f # NONE => R!AtLeast(A(b), A(pop[i]), Cf.hib))

OfGen(e) ==
  IF Cf.nsga \/ e.gen = 0 THEN {} ELSE
  C("C01.bog", Len(e.bog) = 1 /\ \E i \in DOMAIN e.pop : e.pop[i].u = e.bog[1].u
                /\ \A j \in DOMAIN e.pop : e.pop[j].f # NONE => R!AtLeast(A(e.pop[i]), A(e.pop[j]), Cf.hib)) \cup
  C("C01.wog", Len(e.wog) = 1 /\ \E i \in DOMAIN e.pop : e.pop[i].u = e.wog[1].u
                /\ \A j \in DOMAIN e.pop : e.pop[j].f # NONE => R!AtLeast(A(e.pop[j]), A(e.pop[i]), Cf.hib))

(* ---------------------------------------------------------------- C02 *)
Elites(pop) ==
  IF Cf.nsga \/ ~st.bred THEN {} ELSE
  LET el == {i \in DOMAIN pop : pop[i].u \notin st.added}
      src(i) == {q \in DOMAIN st.prev : st.prev[q].id = pop[i].cf}
      S == UNION {src(i) : i \in el}
      aug == Augs(st.prev)
  IN C("C02.count", Cardinality(el) = Cf.nelite) \cup
     C("C02.source", \A i \in el : Cardinality(src(i)) = 1) \cup
     C("C02.best", Cardinality(S) = Cf.nelite /\ R!IsBestSet(S, aug, Cf.hib)) \cup
     C("C02.unmodified", \A i \in el : /\ Get(st.done, pop[i].u, <<>>) = <<>>
                                       /\ \A q \in src(i) : pop[i].g = st.prev[q].g) \cup
     C("C02.sequence", \A i \in DOMAIN pop \ el : Get(st.called, pop[i].u, <<>>) = Cf.opnames) \cup
     CI("C02.neverworse", Cf.nelite > 0,
        LET evs == {i \in DOMAIN pop : pop[i].f # NONE} IN
        evs # {} /\ R!AtLeast(R!BestOf({A(pop[i]) : i \in evs}, Cf.hib),
                              R!BestOf({aug[q] : q \in DOMAIN aug}, Cf.hib), Cf.hib))

(* ---------------------------------------------------------------- C24 *)
Provenance(pop) ==
  IF Cf.nsga \/ ~st.bred THEN {} ELSE
  LET src(x) == {q \in DOMAIN st.prev : st.prev[q].id = x.cf} IN
  C("C24.clonedfrom", \A i \in DOMAIN pop : src(pop[i]) # {}) \cup
  C("C24.selectedby", \A i \in DOMAIN pop :
       pop[i].sel = IF pop[i].u \in st.added THEN <<Cf.sel>> ELSE <<"ElitismSelection">>) \cup
  C("C24.operators", \A i \in DOMAIN pop : pop[i].ops = Get(st.done, pop[i].u, <<>>)) \cup
  C("C24.parents", \A i \in DOMAIN pop : pop[i].tr =>
       Range(pop[i].par) = Range(Get(st.pars, pop[i].u, <<>>))) \cup
  C("C24.untouched", \A i \in DOMAIN pop : pop[i].ops = <<>> =>
       \A q \in src(pop[i]) : pop[i].g = st.prev[q].g)

Initial(pop) ==
  C("C24.initial", \A i \in DOMAIN pop : pop[i].ops = <<>> /\ pop[i].sel = <<>> /\ pop[i].cf = -1)

(* ------------------------------------------------- selection, operators *)
Sel(e) ==
  C("C24.selclone", \A x \in Range(e.new) : x.cf \in Range(e.src) /\ x.sel = <<e.name>> /\ x.ops = <<>> /\ x.par = <<>>) \cup
  C("C03.selown", \A x \in Range(e.new) : x.own) \cup
  C("C03.selid", \A x \in Range(e.new) : \A p \in st.ids : p[1] # x.id) \cup
  C("C24.seltracks", \A x \in Range(e.new) : \A q \in Range(st.pop) : q.id = x.cf => x.tr = q.tr) \cup
  C("C24.selsource", Range(e.src) = {x.id : x \in Range(st.pop)})

Fallback(name) == IF name \in {"FloatVectorGaussOnePointMutation"} THEN {"FloatVectorUniformOnePointMutation"}
                  ELSE IF name = "FloatVectorGaussNPointMutation" THEN {"FloatVectorUniformNPointMutation"}
                  ELSE {}

\* the records one application of operator `name` may add
Adds(name) == {<<name>>} \cup {<<f, name>> : f \in Fallback(name)}
Added(pre, post) == SubSeq(post, Len(pre) + 1, Len(post))
IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Op(e) ==
  LET D == DOMAIN e.pre
      gids == {e.pre[i].id : i \in D}
  IN C("C24.opframe", \A i \in D : e.pre[i].id = e.post[i].id /\ IsPrefix(e.pre[i].ops, e.post[i].ops)
                                   /\ IsPrefix(e.pre[i].par, e.post[i].par)) \cup
     (IF e.applied
      THEN C("C24.oprecord", \A i \in D : Added(e.pre[i].ops, e.post[i].ops) \in Adds(e.name)) \cup
           C("C24.opparents", \A i \in D : e.pre[i].tr => Range(Added(e.pre[i].par, e.post[i].par)) = gids) \cup
           C("C17.opinvalidates", \A i \in D : e.post[i].f = NONE)
      ELSE C("C24.opskipped", \A i \in D : e.post[i] = e.pre[i])) \cup
     C("C24.oponce", e.times <= 1) \cup
     C("C02.opelite", \A i \in D : e.pre[i].u \in st.added) \cup
     C("C24.opret", e.ret = [i \in D |-> e.pre[i].u]) \cup
     C("C02.opgroup", \E k \in DOMAIN Cf.opnames : Cf.opnames[k] = e.name /\ Cf.arities[k] = Len(e.pre))

(* ---------------------------------------------------------------- C06/C07 *)
EvName(e) == CASE e.op = "Create" -> "create" [] e.op = "EvalB" -> "evalB" [] e.op = "EvalE" -> "evalE"
               [] e.op = "InitEv" -> "init" [] e.op = "BreedB" -> "breedB" [] e.op = "BreedE" -> "breedE"
               [] e.op = "AfterGen" -> "aftergen" [] e.op = "Finished" -> "finished" [] OTHER -> "-"
Target(ev) == CASE ev = "create" -> "created" [] ev = "evalB" -> IF st.gen = 0 THEN "evaluating0" ELSE "evaluating"
                [] ev = "evalE" -> IF st.gen = 0 THEN "evaluated0" ELSE "evaluated"
                [] ev = "init" -> "gen0" [] ev = "breedB" -> "breeding" [] ev = "breedE" -> "bred"
                [] ev = "aftergen" -> "closed" [] ev = "finished" -> "finished" [] OTHER -> st.ph
Proto(e) == (e.op \in {"Create", "EvalB", "EvalE", "InitEv", "BreedB", "BreedE"})
            \/ (e.op \in {"AfterGen", "Finished"} /\ e.sub = 1)
Order(e) == IF ~Proto(e) THEN {} ELSE
            C("C06.order", R!ProtoNext(st.ph, EvName(e)) # "BAD") \cup
            CI("C06.zero", e.op = "AfterGen" /\ st.ph = "gen0", st.stop \/ ~\E c \in 1..Cf.nchk : <<c, 0>> \in st.chks)

\* publications and consultations of the generation that is being left
Closing(e) ==
  LET g == st.gen
      published == g > 0 \/ st.ph = "closed"
  IN (IF published
      THEN C("C06.subscribers", st.subs = {<<k, g>> : k \in 1..Cf.nsub}) \cup
           C("C06.statistics", st.stats = {<<k, g>> : k \in 1..Cf.nstat})
      ELSE C("C06.subscribers", st.subs = {}) \cup C("C06.statistics", st.stats = {})) \cup
     C("C07.consulted", st.chks = {<<k, g>> : k \in 1..Cf.nchk})

\* (s + g) mod 2^32 on pairs of 16 bit
AddSeed(s, g) == LET lo == s[2] + g IN <<(s[1] + lo \div 65536) % 65536, lo % 65536>>

Check(e) ==
  CASE e.op = "Cfg"  -> {}
    [] e.op = "Seed" -> {}
    [] e.op = "Create" ->
         Order(e) \cup C("C05.seedfirst", st.seeds = <<Cf.seed>>) \cup
         C("C27.once", ~st.created) \cup C("C27.supplied", ~Cf.supplied) \cup
         C("C27.asked", e.n = Cf.n /\ e.hib = Cf.hib /\ e.made = e.n)
    [] e.op = "EvalB" -> Order(e) \cup CI("C05.seedfirst", Cf.supplied /\ st.gen = 0, st.seeds = <<Cf.seed>>) \cup
                         CI("C27.created", st.gen = 0 /\ ~Cf.supplied, st.created)
    [] e.op = "EvalE" -> Order(e) \cup
         CI("C04.once", Cf.inproc, Len(e.us) = e.n /\ Cardinality(Range(e.us)) = e.n)
    [] e.op = "InitEv" ->
         Order(e) \cup Population(e.pop) \cup BestRun(e.pop, e.best) \cup Initial(e.pop) \cup
         CI("C27.given", Cf.supplied, [i \in DOMAIN e.pop |-> e.pop[i].u] = Cf.given)
    [] e.op = "BreedB" ->
         Order(e) \cup Closing(e) \cup
         C("C06.maxgen", st.gen < Cf.maxgen) \cup
         C("C07.first", ~st.stop) \cup
         C("C05.genseed", st.seeds # <<>> /\ st.seeds[Len(st.seeds)] = AddSeed(Cf.gseed, st.gen + 1))
    [] e.op = "BreedE" -> Order(e)
    [] e.op = "Sel" -> Sel(e)
    [] e.op = "Op" -> Op(e)
    [] e.op = "Chk" ->
         C("C07.args", e.pop /\ e.run /\ e.gen = st.gen) \cup
         CI("C07.best", ~Cf.nsga, Len(e.best) = 1 /\ \A b \in Range(e.best) : b.f # NONE /\ \A v \in Range(st.bestAug) : R!AtLeast(A(b), v, Cf.hib)) \cup
         C("C07.twice", <<e.i, e.gen>> \notin st.chks) \cup
         C("C07.phase", st.ph \in {"gen0", "evaluated", "closed"})
    [] e.op = "Stat" ->
         C("C06.statgen", e.gen = st.gen) \cup C("C06.stattwice", <<e.i, e.gen>> \notin st.stats) \cup
         C("C06.statphase", st.ph \in {"gen0", "evaluated", "closed"})
    [] e.op = "AfterGen" ->
         Order(e) \cup C("C06.gennum", e.gen = st.gen) \cup C("C06.samepop", e.samepop) \cup
         C("C06.aftertwice", <<e.sub, e.gen>> \notin st.subs) \cup
         (IF e.sub # 1 THEN {}
          ELSE Population(e.pop) \cup BestRun(e.pop, e.best) \cup BestApart(e.pop, e.best) \cup
               OfGen(e) \cup Elites(e.pop) \cup Provenance(e.pop))
    [] e.op = "Finished" ->
         Order(e) \cup C("C06.fintwice", e.sub \notin st.fins) \cup
         (IF e.sub # 1 THEN {} ELSE
          Closing(e) \cup C("C07.stops", st.stop \/ st.gen = Cf.maxgen))
    [] e.op = "End" ->
         C("C06.final", e.fin = st.gen) \cup C("C06.workers", e.left = 0) \cup
         C("C06.finished", st.ph = "finished" /\ st.fins = 1..Cf.nsub) \cup
         BestRun(e.pop, e.best) \cup Population(e.pop) \cup BestApart(e.pop, e.best) \cup
         C("C06.settled", Len(e.pop) = Len(st.pop) /\ \A i \in DOMAIN e.pop : e.pop[i].u = st.pop[i].u /\ e.pop[i].g = st.pop[i].g) \cup
         C("C01.execute", e.got = e.want)
    [] e.op = "Ids" -> C("C03.id", e.distinct = e.n)
    [] e.op = "Workers" -> C("C06.workers", e.late = 0)
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}

\* the best augmented fitness evaluated so far (a sequence of at most one)
Merge(vals) == LET S == Range(st.bestAug) \cup vals IN IF S = {} THEN <<>> ELSE <<R!BestOf(S, Cf.hib)>>
PopAug(pop) == {A(pop[i]) : i \in {j \in DOMAIN pop : pop[j].f # NONE}}
NewIds(pop) == {<<x.id, x.u>> : x \in Range(pop)}
Ph(e) == IF Proto(e) THEN Target(EvName(e)) ELSE st.ph

Put(m, us, f(_)) == [u \in DOMAIN m \cup us |-> IF u \in us THEN f(u) ELSE m[u]]

Step(e) ==
  CASE e.op = "Cfg" -> [Zero EXCEPT !.cfg = e]
    [] e.op = "Seed" -> [st EXCEPT !.seeds = Append(@, e.v)]
    [] e.op = "Create" -> [st EXCEPT !.ph = Ph(e), !.created = TRUE]
    [] e.op = "EvalE" -> [st EXCEPT !.ph = Ph(e),
                            !.bestAug = Merge({R!Aug(x.sc, Cf.w, x.size, Cf.hib) : x \in Range(e.evs)})]
    [] e.op = "InitEv" -> [st EXCEPT !.ph = Ph(e), !.pop = e.pop, !.ids = @ \cup NewIds(e.pop),
                             !.bestAug = IF Cf.nsga THEN @ ELSE Merge(PopAug(e.pop))]
    [] e.op = "BreedB" -> [st EXCEPT !.ph = Ph(e), !.gen = @ + 1, !.prev = st.pop, !.bred = TRUE,
                             !.added = {}, !.called = <<>>, !.done = <<>>, !.pars = <<>>,
                             !.subs = {}, !.stats = {}, !.chks = {}]
    [] e.op = "Sel" -> [st EXCEPT !.added = @ \cup {x.u : x \in Range(e.new)},
                                  !.ids = @ \cup NewIds(e.new)]
    [] e.op = "Op" ->
         LET us == {e.pre[i].u : i \in DOMAIN e.pre}
             ix(u) == CHOOSE i \in DOMAIN e.pre : e.pre[i].u = u
             nc(u) == Append(Get(st.called, u, <<>>), e.name)
             nd(u) == Get(st.done, u, <<>>) \o
                      (IF e.applied THEN (LET a == Added(e.pre[ix(u)].ops, e.post[ix(u)].ops)
                                          IN IF a \in Adds(e.name) THEN a ELSE <<e.name>>) ELSE <<>>)
             np(u) == Get(st.pars, u, <<>>) \o (IF e.applied THEN [i \in DOMAIN e.pre |-> e.pre[i].id] ELSE <<>>)
         IN [st EXCEPT !.called = Put(@, us, nc), !.done = Put(@, us, nd), !.pars = Put(@, us, np)]
    [] e.op = "Chk" -> [st EXCEPT !.chks = @ \cup {<<e.i, e.gen>>}, !.stop = @ \/ e.ans]
    [] e.op = "Stat" -> [st EXCEPT !.stats = @ \cup {<<e.i, e.gen>>}]
    [] e.op = "AfterGen" ->
         IF e.sub # 1 THEN [st EXCEPT !.subs = @ \cup {<<e.sub, e.gen>>}]
         ELSE [st EXCEPT !.ph = Ph(e), !.subs = @ \cup {<<e.sub, e.gen>>}, !.pop = e.pop, !.ids = @ \cup NewIds(e.pop),
                         !.bestAug = IF Cf.nsga THEN @ ELSE Merge(PopAug(e.pop))]
    [] e.op = "Finished" -> [st EXCEPT !.ph = Ph(e), !.fins = @ \cup {e.sub}]
    [] OTHER -> [st EXCEPT !.ph = Ph(e)]

TInit == l = 1 /\ st = Zero
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN
              /\ Report(l, Check(e))
              /\ st' = Step(e)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
