---- MODULE TraceTreeChoice ----
(* What creators, mutations and crossovers produced over many applications   *)
(* must be everything the specification allows.                              *)
EXTENDS TraceBase
V == INSTANCE TreeChoice WITH Funs <- {}, Terms <- {}, Root <- "none", MinD <- 0, MaxD <- 0, NTrees <- 0, MaxOps <- 0,
       Bug <- "none", trees <- 0, todo <- 0, uid <- 0, ops <- 0, last <- 0, goal <- 0, hit <- 0
VARIABLES l, st

Check(e) ==
  CASE e.op = "Made" ->
         LET all == V!Makes(e.how, Range(e.fs), Range(e.ts), e.root, e.mn, e.mx)  seen == Range(e.seen) IN
         C("C28.create", all \subseteq seen) \cup C("C28.created", seen \subseteq all)
    [] e.op = "Mutated" ->
         LET all == V!Mutants(Range(e.fs), Range(e.ts), e.t, e.typed, e.mn, e.mx)  seen == Range(e.seen) IN
         C("C28.mutation", all \subseteq seen) \cup C("C28.mutated", seen \subseteq all \cup {e.t})
    [] e.op = "Crossed" ->
         LET all == V!Crosses(e.trees, e.typed)  seen == Range(e.seen) IN
         C("C28.crossover", all \subseteq seen) \cup C("C28.crossed", seen \subseteq all \cup {e.trees})
    [] e.op = "Consts" -> C("C28.constant", Range(e.hit) = {i \in DOMAIN e.num : e.num[i]})
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Check(Trace[l])) /\ st' = st
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
