---- MODULE TraceSklearn ----
EXTENDS TraceBase
P == INSTANCE Sklearn WITH Ests <- {1}, Data <- {1}, Genomes <- {1}, Queries <- {1}, Out <- <<<<0>>>>, Target <- <<[x |-> <<1>>, y |-> <<0>>]>>, Bug <- "none", est <- 0, last <- 0
VARIABLES l, st
(* st.est: estimator -> [fitted, best, org, d]; st.run: <<origin, data>> -> best; st.ans: <<best, x>> -> answer *)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
E0 == [x \in {} |-> 0]
S0 == [est |-> E0, run |-> E0, ans |-> E0]
cur(e) == IF e.first THEN S0 ELSE st
K(x) == ToString(x)

Check(e) ==
  LET s == cur(e) IN
  CASE e.op = "New" -> {}
    [] e.op = "Fit" ->
         LET r == s.est[K(e.e)] IN
         C("C22.fits", e.exc = "") \cup
         IF e.exc # "" THEN {} ELSE
         C("C22.returns_self", e.ret) \cup C("C22.frame", e.same)
         \cup C("C22.training_data", \A i \in DOMAIN e.evs : e.evs[i].y /\ e.evs[i].n)
         \cup C("C22.fitness", \A i \in DOMAIN e.members : e.members[i])
         \cup CI("C22.best", e.evs # <<>>, \A i \in DOMAIN e.evs : IF e.hib THEN e.evs[i].v <= e.bestf ELSE e.evs[i].v >= e.bestf)
         \cup LET k == K(<<r.org, e.d>>) IN CI("C22.clones", e.evs # <<>> /\ k \in DOMAIN s.run, e.best = s.run[k])
    [] e.op = "Predict" ->
         LET r == s.est[K(e.e)] IN
         IF ~r.fitted THEN C("C22.unfitted", e.unfitted)
         ELSE C("C22.predicts", ~e.unfitted /\ ~e.raised) \cup
         IF e.unfitted \/ e.raised THEN {} ELSE
         C("C22.one_per_row", e.shape = <<e.n>>) \cup C("C22.frame", e.same) \cup C("C22.same_best", e.best = r.best)
         \cup C("C22.answers", \A i \in DOMAIN e.rows : LET q == e.rows[i] IN
                 CASE e.kind = "sig" -> q.o = P!Reached(q.p, e.thr)
                   [] e.kind = "reg" -> q.ok
                   [] OTHER -> q.o = q.w)
         \cup LET k == K(<<r.org, e.best, e.x, e.form>>) IN CI("C22.repeatable", k \in DOMAIN s.ans, e.out = s.ans[k])
    [] e.op = "Score" -> C("C22.score", e.ok)
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}

Step(e) ==
  LET s == cur(e) IN
  CASE e.op = "New" -> [s EXCEPT !.est = Put(@, K(e.e), IF e.src = 0 THEN [fitted |-> FALSE, best |-> 0, org |-> e.e] ELSE s.est[K(e.src)])]
    [] e.op = "Fit" -> LET k == K(<<s.est[K(e.e)].org, e.d>>) IN
         [s EXCEPT !.est = Put(@, K(e.e), [s.est[K(e.e)] EXCEPT !.fitted = e.exc = "", !.best = e.best]),
                   !.run = IF k \in DOMAIN @ THEN @ ELSE Put(@, k, e.best)]
    [] e.op = "Predict" -> IF e.unfitted \/ e.raised THEN s
         ELSE LET k == K(<<s.est[K(e.e)].org, e.best, e.x, e.form>>) IN IF k \in DOMAIN s.ans THEN s ELSE [s EXCEPT !.ans = Put(@, k, e.out)]
    [] OTHER -> s
TInit == l = 1 /\ st = S0
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN Report(l, Check(e)) /\ st' = Step(e)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
