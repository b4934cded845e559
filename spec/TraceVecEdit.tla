---- MODULE TraceVecEdit ----
(* Editing calls on real vector individuals.                                  *)
EXTENDS TraceBase
V == INSTANCE VecEdit WITH Vals <- {}, MaxLen <- 0, MaxOps <- 0, Bug <- "none", heap <- 0, ref <- 0, len <- 0, ret <- 0, ghost <- 0, ops <- 0
VARIABLES l, st

\* vectors of all individuals after the call, given the one it was for
Others(e) == Len(e.pool) = Len(st) /\ \A j \in DOMAIN st : j # e.i => e.pool[j] = st[j]
Is(e, v) == C("C29.result", e.pool[e.i] = v) \cup C("C29.others", Others(e)) \cup C("C29.noexc", e.exc = "")
Returns(e, w) == C("C29.returned", e.ret = w)
Check(e) ==
  C("C29.length", e.op \in {"Exc"} \/ (\A j \in DOMAIN e.pool : e.sizes[j] = Len(e.pool[j]) /\ e.lens[j] = Len(e.pool[j]))) \cup
  CASE e.op = "New" -> C("C29.new", e.pool = e.want)
    [] e.op = "Add" -> Is(e, Append(st[e.i], e.x))
    [] e.op = "Empty" -> Is(e, <<>>)
    [] e.op = "Set" -> Is(e, V!Put(st[e.i], e.k, e.x))
    [] e.op = "NoCell" -> C("C29.nocell", e.exc # "" /\ e.pool = st)
    [] e.op = "SetVector" -> Is(e, e.w)
    [] e.op = "Cell" -> Is(e, st[e.i]) \cup Returns(e, <<st[e.i][e.k]>>)
    [] e.op = "Vector" -> Is(e, st[e.i]) \cup Returns(e, st[e.i])
    [] e.op = "Part" -> Is(e, st[e.i]) \cup Returns(e, SubSeq(st[e.i], e.a, e.b))
    [] e.op = "Replace" -> Is(e, V!Over(st[e.i], e.w, e.k)) \cup Returns(e, V!Part(st[e.i], e.k, Len(e.w)))
    [] e.op = "ReplaceRandom" ->
         C("C29.random", \E k \in 1..(Len(st[e.i]) - Len(e.w) + 1) :
              e.pool[e.i] = V!Over(st[e.i], e.w, k) /\ e.ret = V!Part(st[e.i], k, Len(e.w))) \cup
         C("C29.others", Others(e)) \cup C("C29.noexc", e.exc = "")
    [] e.op = "RandomPart" -> Is(e, st[e.i]) \cup C("C29.part", e.ret \in V!AllParts(st[e.i]))
    [] e.op = "Spoil" -> C("C29.copies", e.pool = st)
    [] e.op = "Clone" -> C("C29.clone", e.pool = [st EXCEPT ![e.j] = st[e.i]])
    [] e.op = "AllParts" -> C("C29.allparts", Range(e.seen) = V!AllParts(e.v))
    [] e.op = "AllPlaces" -> C("C29.allplaces", Range(e.seen) = {V!Over(e.v, e.w, k) : k \in 1..(Len(e.v) - Len(e.w) + 1)})
    [] e.op = "AllNums" -> C("C29.numbers", Range(e.seen) = e.lo..e.hi)
    [] e.op = "Bounds" -> C("C29.inbounds", e.res = \A k \in DOMAIN st[e.i] : st[e.i][k] >= e.lo[k] /\ st[e.i][k] <= e.hi[k])
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
Step(e) == IF e.op = "Exc" THEN st ELSE e.pool
TInit == l = 1 /\ st = <<>>
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN Report(l, Check(e)) /\ st' = Step(e)
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
