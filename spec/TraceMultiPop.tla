---- MODULE TraceMultiPop ----
(* Breeding steps of the real breeder over several sub-populations.          *)
EXTENDS TraceBase
M == INSTANCE MultiPop WITH S <- 1, N <- <<1>>, E <- <<0>>, Hib <- <<TRUE>>, Fit <- {0}, Bug <- "none",
       pop <- 0, old <- 0, cur <- 0, sel <- 0, ph <- 0
VARIABLES l, st     \* st: the configuration of the sub-populations

Us(p) == {p[i].u : i \in DOMAIN p}
Ids(p) == {p[i].id : i \in DOMAIN p}
All(ps) == UNION {Range(ps[s]) : s \in DOMAIN ps}

\* calls that individual u went through
Through(calls, u) == SelectSeq(calls, LAMBDA c : u \in Range(c.us))
At(c, u) == CHOOSE j \in DOMAIN c.us : c.us[j] = u

Source(before, x) == CHOOSE i \in DOMAIN before : before[i].id = x.cf

Elites(s, b, a) ==
  LET n == st[s].e
      order == [k \in 1..n |-> Source(b, a[k])]
      fit == [i \in DOMAIN b |-> b[i].a]
  IN C("C33.elites", M!IsBestFirst(order, fit, st[s].hib)) \cup
     C("C33.elitegenome", \A k \in 1..n : a[k].g = b[order[k]].g /\ a[k].ops = <<>>)

Offspring(s, b, a, e) ==
  LET mine == {i \in DOMAIN a : i > st[s].e}
      own == UNION {Range(e.sels[k].new) : k \in {q \in DOMAIN e.sels : e.sels[q].s = s}}
  IN C("C33.selected", \A i \in mine : a[i].u \in own) \cup
     C("C33.operated", \A i \in mine :
         LET t == Through(e.calls, a[i].u)
             src == b[Source(b, a[i])].g
         IN /\ [k \in DOMAIN t |-> t[k].k] = [k \in 1..Len(st[s].ops) |-> k]
            /\ \A k \in DOMAIN t : t[k].s = s
            /\ IF t = <<>> THEN a[i].g = src
               ELSE /\ t[1].pre[At(t[1], a[i].u)] = src
                    /\ \A k \in 1..(Len(t) - 1) : t[k].post[At(t[k], a[i].u)] = t[k + 1].pre[At(t[k + 1], a[i].u)]
                    /\ t[Len(t)].post[At(t[Len(t)], a[i].u)] = a[i].g)

OneSub(s, e) ==
  LET b == e.before[s]
      a == e.after[s]
  IN C("C33.size", Len(a) = st[s].n /\ Len(b) = st[s].n) \cup
     (IF Len(a) # st[s].n THEN {} ELSE
      C("C33.home", \A i \in DOMAIN a : a[i].cf \in Ids(b)) \cup
      (IF \E i \in DOMAIN a : a[i].cf \notin Ids(b) THEN {} ELSE Elites(s, b, a) \cup Offspring(s, b, a, e)))

Breed(e) ==
  IF e.exc # "" THEN {"C33.exc"} ELSE
  UNION {OneSub(s, e) : s \in DOMAIN st} \cup
  C("C33.fresh", \A s \in DOMAIN st : Us(e.after[s]) \cap UNION {Us(e.before[t]) : t \in DOMAIN st} = {}) \cup
  C("C33.apart", /\ \A s, t \in DOMAIN st : s # t => (Us(e.after[s]) \cap Us(e.after[t]) = {} /\ Ids(e.after[s]) \cap Ids(e.after[t]) = {})
                 /\ \A s \in DOMAIN st : Cardinality(Us(e.after[s])) = Len(e.after[s]) /\ Cardinality(Ids(e.after[s])) = Len(e.after[s])) \cup
  C("C33.groups", \A c \in Range(e.calls) : Len(c.us) = st[c.s].ar[c.k] /\ \A j \in DOMAIN c.cf : c.cf[j] \in Ids(e.before[c.s])) \cup
  C("C33.source", \A q \in Range(e.sels) : q.k = 1 /\ Range(q.src) = Us(e.before[q.s])) \cup
  C("C33.rules", \A s \in DOMAIN st : e.cfg[s] = st[s]) \cup
  C("C33.frame", e.same)

\* the extremes of a population of snapshots
Extreme(p, u, hib) == \E i \in DOMAIN p : p[i].u = u /\ \A j \in DOMAIN p : ~M!Better(p[j].a, p[i].a, hib)

Gen(e) ==
  C("C33.gen", \A s \in DOMAIN e.gens : \A i \in DOMAIN e.gens[s] : e.gens[s][i] = e.g) \cup
  C("C33.kept", \A s \in DOMAIN e.pops : e.pops[s]) \cup
  CI("C33.worst", e.g > 0, Extreme(e.pfirst, e.worst, ~e.hib)) \cup
  CI("C33.best", e.g > 0, Extreme(e.plast, e.best, e.lhib))

Check(e) ==
  CASE e.op = "Cfg" -> {}
    [] e.op = "Breed" -> Breed(e)
    [] e.op = "Refused" -> C("C33.refuse", e.exc = "ValueError" /\ e.before = e.after /\ e.same)
    [] e.op = "Gen" -> Gen(e)
    [] e.op = "End" -> C("C33.run", e.exc = "")
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
TInit == l = 1 /\ st = <<>>
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN
              /\ Report(l, Check(e))
              /\ st' = IF e.op = "Cfg" THEN e.subs ELSE st
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
