---- MODULE TraceInitPop ----
EXTENDS TraceBase
P == INSTANCE InitPop WITH NC <- 1, Weights <- <<1>>, N <- 1, Supplied <- 0, Bug <- "none", inds <- 0, asked <- 0, hib <- 0,
       nfo <- 0, phase <- 0, calls <- 0
S == INSTANCE Selection WITH M <- 1, F <- {0}, TMax <- 1, Bug <- "none",
       fit <- 0, hib <- 0, rep <- 0, t <- 0, tour <- 0, k <- 0, winner <- 0
VARIABLES l, st

Distinct(f(_), s) == \A i, j \in DOMAIN s : i # j => f(s[i]) # f(s[j])
U(x) == x.u
I(x) == x.id
Apart(s) == \A i, j \in DOMAIN s : i < j => Range(s[i].own) \cap Range(s[j].own) = {}

Created(e) ==
  LET a == e.asked[1] IN
  C("C27.number", Len(e.pop) = e.n) \cup
  C("C27.made", [i \in DOMAIN e.pop |-> e.pop[i].u] = a.got) \cup
  C("C27.fitness", P!DistinctF(e.pop)) \cup
  C("C27.unevaluated", \A i \in DOMAIN e.pop : ~e.pop[i].ev) \cup
  C("C27.direction", \A i \in DOMAIN e.pop : e.pop[i].hib = e.hib) \cup
  C("C27.fresh", \A i \in DOMAIN e.pop : e.pop[i].gen = 0 /\ e.pop[i].cf = -1 /\ e.pop[i].none) \cup
  C("C27.apart", Apart(e.pop) /\ Distinct(U, e.pop) /\ Distinct(I, e.pop)) \cup
  C("C27.settings", \A i \in DOMAIN e.pop : e.pop[i].set = e.creators[a.c])

Check(e) ==
  CASE e.op = "Ready" ->
         C("C27.asked", P!AskedOk(e.asked, e.n, e.hib, e.w, e.supplied)) \cup
         (IF e.supplied THEN C("C27.supplied", e.pop = e.given)
          ELSE IF Len(e.asked) # 1 THEN {} ELSE Created(e))
    [] e.op = "Huge" ->
         C("C27.asked", Len(e.asked) = 1 /\ e.asked[1].n = e.n /\ e.asked[1].hib = e.hib) \cup C("C27.number", e.size = e.n) \cup
         C("C27.apart", e.ids = e.n /\ e.objs = e.n /\ e.fits = e.n /\ e.vecs = e.n) \cup C("C27.fresh", e.fresh)
    [] e.op = "Freq" ->
         C("C27.weights", \A i \in DOMAIN e.w : S!Compatible(e.cnt[i], e.m, e.w[i], S!Sum(e.w)) /\ (e.w[i] = 0 => e.cnt[i] = 0))
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN Report(l, Check(e)) /\ st' = st
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
