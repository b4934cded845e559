---- MODULE TracePersist ----
EXTENDS TraceBase
(* Recorded copies, runs and executions of algorithms against Persist.tla:  *)
(* st.want[a] is the view every algorithm must keep until it acts itself,   *)
(* st.org[a] what it is a copy of, st.hist the run of each original.        *)
VARIABLES l, st
K(x) == ToString(x)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
S0 == [want |-> [x \in {} |-> 0], org |-> [x \in {} |-> 0], ph |-> [x \in {} |-> 0], hist |-> [x \in {} |-> 0], exec |-> [x \in {} |-> 0]]
cur(e) == IF e.first THEN S0 ELSE st

Check(e) ==
  LET s == cur(e) IN
  CASE e.op = "New" -> {}
    [] e.op = "CopyRaised" -> {"C21.copies"}
    [] e.op = "Copy" ->
         C("C21.genomes", e.copy.pop = e.before.pop) \cup C("C21.ids", e.copy.ids = e.before.ids)
         \cup C("C21.generations", e.copy.gens = e.before.gens) \cup C("C21.seeds", e.copy.seeds = e.before.seeds)
         \cup C("C21.best", e.copy.best = e.before.best) \cup C("C21.frame", e.after = e.before) \cup C("C21.shared", e.shared = <<>>)
    [] e.op = "Look" -> C("C21.isolated", e.view = s.want[K(e.a)])
    [] e.op = "Run" -> C("C21.ran", e.exc = "") \cup
         CI("C21.evolves", s.ph[K(e.a)] = "new" /\ K(s.org[K(e.a)]) \in DOMAIN s.hist, e.hist = s.hist[K(s.org[K(e.a)])])
    [] e.op = "Twin" -> C("C21.undisturbed", e.hist = s.hist[K(e.a)])
    [] e.op = "Exec" -> CI("C21.executes", s.ph[K(e.a)] = "done", ~e.raised) \cup
         LET k == K(s.org[K(e.a)]) \o "/" \o K(e.args) IN
         CI("C21.executes", s.ph[K(e.a)] = "done" /\ k \in DOMAIN s.exec, e.v = s.exec[k])
    [] e.op = "Elsewhere" -> C("C21." \o e.act, e.exc = "" /\ e.got = e.want)
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}

Step(e) ==
  LET s == cur(e) IN
  CASE e.op = "New" -> [s EXCEPT !.want = Put(@, K(e.a), e.view), !.org = Put(@, K(e.a), e.a), !.ph = Put(@, K(e.a), "new")]
    [] e.op = "Copy" -> [s EXCEPT !.want = Put(Put(@, K(e.a), e.before), K(e.b), e.copy), !.org = Put(@, K(e.b), s.org[K(e.a)]),
                                  !.ph = Put(@, K(e.b), IF e.phase = "copied" THEN s.ph[K(e.a)] ELSE e.phase)]
    [] e.op = "Run" -> [s EXCEPT !.want = Put(@, K(e.a), e.view), !.ph = Put(@, K(e.a), "done"),
                                 !.hist = IF K(s.org[K(e.a)]) \in DOMAIN @ THEN @ ELSE Put(@, K(s.org[K(e.a)]), e.hist)]
    [] e.op = "Exec" -> LET k == K(s.org[K(e.a)]) \o "/" \o K(e.args) IN
         IF s.ph[K(e.a)] = "done" /\ k \notin DOMAIN s.exec THEN [s EXCEPT !.exec = Put(@, k, e.v)] ELSE s
    [] OTHER -> s

TInit == l = 1 /\ st = S0
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN Report(l, Check(e)) /\ st' = Step(e)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
