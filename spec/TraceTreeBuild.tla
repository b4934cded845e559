---- MODULE TraceTreeBuild ----
(* Trees built and edited by hand, and their text.                            *)
EXTENDS TraceBase
V == INSTANCE TreeBuild WITH Funs <- {}, Terms <- {}, Root <- "none", MinD <- 0, MaxD <- 0, NTrees <- 0, MaxOps <- 0,
       Bug <- "none", trees <- 0, todo <- 0, uid <- 0, ops <- 0, last <- 0, t <- 0, acc <- 0
VARIABLES l, st

Whole(t) == Len(t) > 0 /\ V!WF(t)
Check(e) ==
  CASE e.op = "Cfg" -> {}
    [] e.op = "Load" -> {}
    [] e.op = "Add" ->
         LET ok == V!Accepts(st.t, e.n) IN
         C("C31.accepts", ok => e.exc = "") \cup C("C31.refuses", ~ok => e.exc = "ValueError") \cup
         C("C31.added", e.t = IF ok THEN Append(st.t, e.n) ELSE st.t)
    [] e.op = "Measure" -> C("C31.size", e.size = Len(st.t)) \cup CI("C31.depth", Whole(st.t), e.depth = V!Depth(st.t))
    [] e.op = "Empty" -> C("C31.empty", e.t = <<>>)
    [] e.op = "Replace" -> C("C31.replace", e.t = V!Splice(st.t, e.p, e.sub))
    [] e.op = "Filter" -> C("C31.filter", e.res = SelectSeq(st.t, LAMBDA n : IF e.what = "fun" THEN n.fn ELSE ~n.fn /\ n.ret = e.ty) /\ e.t = st.t)
    [] e.op = "Source" ->
         \* functions / terminals of a type: exactly those, none when there is none
         C("C31.source", Range(e.seen) = {m.s : m \in {x \in Range(e.from) : x.ret = e.ty}}) \cup
         C("C31.none", (e.none > 0) = (\A x \in Range(e.from) : x.ret # e.ty)) \cup
         C("C31.type", Range(e.types) \subseteq {e.ty})
    [] e.op = "Text" ->
         C("C30.body", e.body = V!Tokens(e.t)) \cup C("C30.name", e.name = e.want) \cup
         C("C30.params", e.params = st.cfg.params) \cup C("C30.ret", e.ret = IF st.cfg.typed THEN e.t[1].ret ELSE "") \cup
         C("C30.pure", e.same) \cup C("C30.repr", e.repr)
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
Step(e) ==
  CASE e.op = "Cfg" -> [cfg |-> e.cfg, t |-> <<>>]
    [] e.op \in {"Add", "Load", "Empty", "Replace"} -> [st EXCEPT !.t = e.t]
    [] OTHER -> st
TInit == l = 1 /\ st = [cfg |-> [x |-> 0], t |-> <<>>]
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN Report(l, Check(e)) /\ st' = Step(e)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
