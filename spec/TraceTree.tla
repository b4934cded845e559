---- MODULE TraceTree ----
(* Real trees: creation, crossover, mutation, constant mutation, execution.   *)
EXTENDS TraceBase
T == INSTANCE Tree WITH Funs <- {}, Terms <- {}, Root <- "none", MinD <- 0, MaxD <- 0, NTrees <- 0, MaxOps <- 0,
       Bug <- "none", trees <- 0, todo <- 0, uid <- 0, ops <- 0, last <- 0
VARIABLES l, st

\* node: [s, k ("f","v","c"), args, ret (true type), ty (claimed), u, num, vt, v, own (in the individual's sets)]
Num(n) == n.k = "c" /\ n.num
NodeOk(n, x, m) ==
  CASE n.k = "f" -> n.own /\ n.ret = x.ty /\ n.ty = x.ty
    [] n.k = "v" -> n.own /\ n.ret = x.ty /\ n.ty = x.ty
    [] n.k = "c" -> IF n.own /\ n.ret = x.ty THEN n.ty = x.ty      \* a constant of the terminal set
                    ELSE /\ n.num /\ (st.cfg.erc \/ m)
                         /\ n.ty = x.ty
                         /\ (st.cfg.typed => n.vt = x.ty /\ ((x.ty = st.cfg.erctype /\ st.cfg.erc) \/ m))
    [] OTHER -> FALSE
TreeOk(r, m) == /\ T!WF(r.t)
             /\ LET x == T!Exp(r.t, st.cfg.root) IN
                /\ Len(x) = Len(r.t)
                /\ \A i \in DOMAIN r.t : NodeOk(r.t[i], x[i], m)
\* constants of freshly made trees lie in the configured range
ErcOk(t) == \A i \in DOMAIN t : t[i].k = "c" /\ ~t[i].own => /\ t[i].v >= st.cfg.lo /\ t[i].v <= st.cfg.hi
                                                             /\ (st.cfg.typed => t[i].vt = st.cfg.erctype)
Report13(pool, m) ==
  C("C13.wellformed", \A i \in DOMAIN pool : T!WF(pool[i].t)) \cup
  C("C13.nodes", \A i \in DOMAIN pool : T!WF(pool[i].t) => TreeOk(pool[i], m)) \cup
  C("C13.sizedepth", \A i \in DOMAIN pool : T!WF(pool[i].t) => pool[i].size = Len(pool[i].t) /\ pool[i].depth = T!Depth(pool[i].t))
Us(t) == {t[i].u : i \in DOMAIN t}
Distinct(pool) == /\ \A i \in DOMAIN pool : Cardinality(Us(pool[i].t)) = Len(pool[i].t)
                  /\ \A i, j \in DOMAIN pool : i # j => Us(pool[i].t) \cap Us(pool[j].t) = {}
\* content of a node, for comparisons before/after
Cont(t) == [i \in DOMAIN t |-> <<t[i].k, t[i].s, t[i].ty, t[i].v, t[i].vt>>]
Ts(pool, is) == [j \in DOMAIN is |-> pool[is[j]].t]
Ks(pool, is) == [j \in DOMAIN is |-> Cont(pool[is[j]].t)]
Same(e, I) == \A i \in I : Cont(e.pool[i].t) = Cont(st.pool[i].t)
AllWF(pool, I) == \A i \in I : T!WF(pool[i].t)
Key(n) == <<n.k, n.s, n.ty, n.v, n.vt>>
\* a crossover of typed trees cannot fail when any type the first tree can offer exists in the others
Offers(t) == {t[i].ty : i \in 2..Len(t)}
Certain(t) == {t[i].ty : i \in {j \in DOMAIN t : Key(t[j]) # Key(t[1])}}
CrossForced(ts) == \/ ~st.cfg.typed
                   \/ /\ Certain(ts[1]) # {}
                      /\ \A j \in 2..Len(ts) : Offers(ts[1]) \subseteq Certain(ts[j])
MutForced(t) == ~st.cfg.typed \/ Certain(t) # {}

CheckCross(e) ==
  LET I == Range(e.is)  pre == Ts(st.pool, e.is)  post == Ts(e.pool, e.is) IN
  IF ~AllWF(e.pool, I) \/ ~AllWF(st.pool, I) THEN {"C15.crossover"}
  ELSE IF Same(e, I) /\ ~CrossForced(pre) THEN {}
  ELSE C("C15.crossover", T!IsCrossover(pre, post, Ks(st.pool, e.is), Ks(e.pool, e.is), st.cfg.typed))
CheckMut(e) ==
  LET I == Range(e.is) IN
  IF ~AllWF(e.pool, I) \/ ~AllWF(st.pool, I) THEN {"C15.mutation"}
  ELSE IF Same(e, I) /\ \E i \in I : ~MutForced(st.pool[i].t) THEN {}
  ELSE UNION {C("C15.mutation", T!IsMutation(st.pool[i].t, e.pool[i].t, Cont(st.pool[i].t), Cont(e.pool[i].t), 0, 0, FALSE))
              \cup CI("C14.mutation", T!IsMutation(st.pool[i].t, e.pool[i].t, Cont(st.pool[i].t), Cont(e.pool[i].t), 0, 0, FALSE),
                      T!IsMutation(st.pool[i].t, e.pool[i].t, Cont(st.pool[i].t), Cont(e.pool[i].t), e.mn, e.mx, TRUE)) : i \in I}
OneLeaf(t, u) ==
  LET D == {i \in DOMAIN t : Key(t[i]) # Key(u[i])} IN
  /\ Len(t) = Len(u)
  /\ \A i \in D : Num(t[i]) /\ u[i].k = "c" /\ u[i].num /\ u[i].ty = t[i].ty
  /\ \/ Cardinality(D) = 1
     \/ D = {} /\ \E i \in DOMAIN t : Num(t[i]) /\ t[i].ty = "int"     \* rounded back
HasNum(t) == \E i \in DOMAIN t : Num(t[i])
CheckErc(e) ==
  LET I == Range(e.is) IN
  IF \A i \in I : HasNum(st.pool[i].t)
  THEN C("C15.constant", \A i \in I : OneLeaf(st.pool[i].t, e.pool[i].t))
  ELSE C("C15.constant", Same(e, I))

\* execution: names of the variables given must be exactly the variables of the terminal set
Env(e, row) == [x \in Range(e.names) |-> row[CHOOSE j \in DOMAIN e.names : e.names[j] = x]]
CheckExec(e) ==
  LET ok == Range(e.names) = Range(st.cfg.vars) /\ Len(e.tree) > 0 IN
  IF ~ok THEN C("C16.rejects", e.exc # "")
  ELSE C("C16.value", e.exc = "" /\ Len(e.res) = Len(e.rows) /\ \A r \in DOMAIN e.rows : e.res[r] = T!Eval(e.tree, Env(e, e.rows[r]))) \cup
       C("C16.pure", e.same) \cup
       CI("C16.shape", e.array /\ e.exc = "", e.dims = 1)

CheckMade(e) ==
  C("C14.count", Len(e.trees) = e.n) \cup
  (IF ~(\A i \in DOMAIN e.trees : T!WF(e.trees[i])) THEN {"C14.broken"} ELSE
   CASE e.how = "full" -> C("C14.full", \A i \in DOMAIN e.trees : T!FullRule(e.trees[i], e.mx))
     [] e.how = "grow" -> C("C14.grow", \A i \in DOMAIN e.trees : T!GrowRule(e.trees[i], e.mn, e.mx)) \cup
                          CI("C14.noprune", e.p = 0, \A i \in DOMAIN e.trees : T!FullRule(e.trees[i], e.mx)) \cup
                          CI("C14.prune", e.p = 100, \A i \in DOMAIN e.trees : T!FullRule(e.trees[i], e.mn)) \cup
                          CI("C14.depths", e.many, {T!Depth(e.trees[i]) : i \in DOMAIN e.trees} = e.mn..e.mx)
     [] e.how = "half" -> C("C14.half", T!HalfRule(e.trees, e.n, e.mn, e.mx)) \cup
                          CI("C14.halffull", e.p = 0, \A d \in e.mn..e.mx :
                              Cardinality({i \in DOMAIN e.trees : T!Depth(e.trees[i]) = d}) =
                                2 * T!GroupSize(e.n, e.mn, e.mx) + (IF d = e.mx THEN e.n - T!GroupSize(e.n, e.mn, e.mx) * 2 * (e.mx - e.mn + 1) ELSE 0)) \cup
                          CI("C14.halfgrow", e.p = 100, \A d \in (e.mn + 1)..e.mx :
                              Cardinality({i \in DOMAIN e.trees : T!Depth(e.trees[i]) = d}) =
                                T!GroupSize(e.n, e.mn, e.mx) + (IF d = e.mx THEN e.n - T!GroupSize(e.n, e.mn, e.mx) * 2 * (e.mx - e.mn + 1) ELSE 0))
     [] OTHER -> {})

Check(e) ==
  CASE e.op = "Cfg" -> {}
    [] e.op = "New0" -> C("C15.distinct", Distinct(e.pool))
    [] e.op = "New" -> Report13(e.pool, st.mutated \/ e.op = "Erc") \cup C("C15.distinct", Distinct(e.pool)) \cup
                       C("C13.range", \A i \in DOMAIN e.pool : ErcOk(e.pool[i].t))
    [] e.op \in {"Cross", "Mut", "Erc"} ->
         Report13(e.pool, st.mutated \/ e.op = "Erc") \cup C("C15.distinct", Distinct(e.pool)) \cup
         C("C15.others", Same(e, DOMAIN e.pool \ Range(e.is))) \cup
         CI("C15.same", ~e.applied, Same(e, DOMAIN e.pool)) \cup
         (IF ~e.applied THEN {} ELSE
          CASE e.op = "Cross" -> CheckCross(e) [] e.op = "Mut" -> CheckMut(e) [] OTHER -> CheckErc(e))
    [] e.op = "Made" -> CheckMade(e)
    [] e.op = "Refused" -> C("C14.refuses", (e.exc # "") = (T!GroupSize(e.n, e.mn, e.mx) = 0))
    [] e.op = "Exec" -> CheckExec(e)
    [] e.op = "Term" ->       \* functions that only build terms, over anything
         C("C16.term", e.exc = "" /\ e.res = T!TermOf([k \in DOMAIN e.tree |->
             [n |-> e.tree[k].n, val |-> IF e.tree[k].k = "v" THEN e.vals[CHOOSE j \in DOMAIN e.names : e.names[j] = e.tree[k].s] ELSE e.tree[k].t]])) \cup
         C("C16.pure", e.same)
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
Step(e) ==
  CASE e.op = "Cfg" -> [cfg |-> e.cfg, pool |-> <<>>, mutated |-> FALSE]
    [] e.op \in {"New", "New0", "Cross", "Mut", "Erc"} ->
         [st EXCEPT !.pool = e.pool, !.mutated = @ \/ (e.op = "Erc" /\ e.applied)]
    [] OTHER -> st
TInit == l = 1 /\ st = [cfg |-> [x |-> 0], pool |-> <<>>, mutated |-> FALSE]
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN Report(l, Check(e)) /\ st' = Step(e)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
