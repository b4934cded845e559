---- MODULE TraceSelection ----
EXTENDS TraceBase
S == INSTANCE Selection WITH M <- 1, F <- {0}, TMax <- 1, Bug <- "none",
       fit <- 0, hib <- 0, rep <- 0, t <- 0, tour <- 0, k <- 0, winner <- 0
VARIABLES l, st

Fit(e) == [i \in DOMAIN e.src |-> e.src[i].a]
\* position of the source individual a clone came from
From(e, x) == CHOOSE i \in DOMAIN e.src : e.src[i].id = x.cf
New(e) == [i \in 1..(Len(e.dest) - Len(e.kept)) |-> e.dest[Len(e.kept) + i]]
Ids(s) == {s[i].id : i \in DOMAIN s}

Clones(e) ==
  C("C08.keep", Len(e.dest) >= Len(e.kept) /\ \A i \in DOMAIN e.kept : e.dest[i] = e.kept[i]) \cup
  C("C08.source", e.src2 = e.src) \cup
  (IF Len(e.dest) < Len(e.kept) THEN {} ELSE
   LET n == New(e) IN
   C("C08.clonedfrom", \A i \in DOMAIN n : n[i].cf \in Ids(e.src)) \cup
   C("C08.genome", \A i \in DOMAIN n : n[i].cf \in Ids(e.src) => n[i].g = e.src[From(e, n[i])].g) \cup
   C("C08.freshid", \A i \in DOMAIN n : n[i].id \notin (Ids(e.src) \cup Ids(e.kept))
                     /\ \A j \in DOMAIN n : i # j => n[i].id # n[j].id) \cup
   C("C08.record", \A i \in DOMAIN n : n[i].sel = <<e.name>>) \cup
   C("C08.fresh", \A i \in DOMAIN n : n[i].u \notin ({x.u : x \in Range(e.src)} \cup {x.u : x \in Range(e.kept)})
                    /\ \A j \in DOMAIN n : i # j => n[i].u # n[j].u))

Choice(e) ==
  LET n == New(e)
      from == [i \in DOMAIN n |-> From(e, n[i])]
  IN IF \E i \in DOMAIN n : n[i].cf \notin Ids(e.src) THEN {} ELSE
     IF e.kind = "elitism"
     THEN C("C08.elitecount", Len(n) = IF e.t < Len(e.src) THEN e.t ELSE Len(e.src)) \cup
          C("C08.bestfirst", S!IsBestFirst(from, Fit(e), e.hib))
     ELSE C("C08.fill", Len(e.dest) = Len(e.src)) \cup
          (IF e.kind = "tournr"
           THEN C("C08.notworst", \A i \in DOMAIN n :
                    S!NotBetter(Fit(e), Fit(e)[from[i]], e.hib) >= e.t)
           ELSE IF e.kind = "fp"
           THEN C("C08.zero", \A i \in DOMAIN n : S!Weights(Fit(e), e.hib, e.unit, 8)[from[i]] > 0)
           ELSE {})

Sel(e) ==
  IF e.must THEN C("C08.reject", e.exc # "")   \* too few individuals, negative fitness
  ELSE C("C08.exc", e.exc = "") \cup (IF e.exc # "" THEN {} ELSE Clones(e) \cup Choice(e) \cup C("C08.same", e.same))

\* counts of selections over many trials, per source position
Stat(e) ==
  LET f == e.fit IN
  IF e.kind = "fp"
  THEN LET w == S!Weights(f, e.hib, e.unit, e.one) IN
       C("C08.proportional", \A i \in DOMAIN f : S!Compatible(e.cnt[i], e.m, w[i], S!Sum(w)))
  ELSE C("C08.pressure", \A i \in DOMAIN f :
           S!Compatible(e.cnt[i], e.m, S!Wins(f, f[i], e.t, e.hib, e.replace),
                        S!Tours(f, e.t, e.replace) * S!Same(f, f[i])))

Check(e) == CASE e.op = "Sel" -> Sel(e) [] e.op = "Counts" -> Stat(e)
              \* equally fit individuals: every part of the pool gets its share
              [] e.op = "Spread" -> C("C08.spread", \A b \in DOMAIN e.cnt : S!Compatible(e.cnt[b], e.m, e.sizes[b], e.n))
              [] e.op = "Exc" -> {"X.exc"} [] OTHER -> {"X.unknown"}
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN Report(l, Check(e)) /\ st' = st
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
