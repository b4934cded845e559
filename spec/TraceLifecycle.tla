---- MODULE TraceLifecycle ----
(* Individuals of the real code put through random sequences of clone, copy,  *)
(* pickle, evaluate, invalidate, operate, read, compare.  After every step    *)
(* the whole pool is recorded; st is the expected pool.                       *)
EXTENDS TraceBase
L == INSTANCE Lifecycle WITH Slots <- {}, Vals <- {}, Genomes <- {}, MaxSteps <- 0, Bug <- "none",
       want <- 0, obj <- 0, gs <- 0, fs <- 0, nid <- 0, steps <- 0
VARIABLES l, st

\* what an observer sees of individual x, without storage identities
See(x) == [id |-> x.id, cf |-> x.cf, g |-> x.g, f |-> x.f, sel |-> x.sel, ops |-> x.ops, par |-> x.par,
           cache |-> x.cache, rel |-> x.rel, gen |-> x.gen, env |-> x.env, typ |-> x.typ, size |-> x.size,
           kind |-> x.kind, hib |-> x.hib, w |-> x.w, up |-> x.up]
Seen(p) == [i \in DOMAIN p |-> See(p[i])]
Old(e) == 1..Len(st.pool)
\* everyone but the individuals in T is as before
Frame(e, T) == \A i \in Old(e) \ T : See(e.pool[i]) = st.pool[i]
Disjoint(e) == \A i, j \in DOMAIN e.pool : i # j => Range(e.pool[i].st) \cap Range(e.pool[j].st) = {}
Evaluated(x) == x.f # <<>>
ReadOk(x) == /\ (x.rd = "") = Evaluated(x)                   \* readable exactly while evaluated
             /\ (~x.rel => x.ev = Evaluated(x))
Single(x) == x.kind # "nsga"
A(x) == L!Aug(x.f[1], x.w, x.size, x.hib)
\* comparison of x with y
CmpErr(x, y) == \/ Single(x) # Single(y) \/ ~Evaluated(x) \/ ~Evaluated(y)
CmpAns(e, x, y) == IF e.which = "better" THEN L!Lt(A(x), A(y), x.hib) ELSE A(x) = A(y)

ModelOf(x) == See(x)
Clones(e, x, y) ==     \* y is the new clone of x
  LET w == L!CloneV(x, y.id) IN
  C("C09.clone", See(y) = [w EXCEPT !.f = y.f]) \cup
  C("C09.fitness", y.f = w.f) \cup
  C("C09.freshid", \A i \in Old(e) : st.pool[i].id # y.id)
Copies(e, x, y) == C("C17.copy", y.f = L!CopyV(x).f) \cup C("C09.copy", See(y) = [x EXCEPT !.f = y.f])

Check(e) ==
  IF e.op = "Exc" THEN {"X.exc"} ELSE
  C("C17.read", \A i \in DOMAIN e.pool : ReadOk(e.pool[i])) \cup
  C("C09.shared", Disjoint(e)) \cup
  (CASE e.op = "New" -> C("C09.newid", \A i \in DOMAIN e.own : e.own[i])
    [] e.op = "Set" ->
        LET x == st.pool[e.i]  bad == x.kind = "nsga" /\ Evaluated(x) IN
        C("C17.set", IF bad THEN e.exc # "" /\ See(e.pool[e.i]) = x ELSE e.exc = "" /\ See(e.pool[e.i]) = L!SetF(x, e.v)) \cup
        C("C09.frame", Frame(e, {e.i}))
    [] e.op = "Inval" -> C("C17.inval", See(e.pool[e.i]) = L!Stale(st.pool[e.i])) \cup C("C09.frame", Frame(e, {e.i}))
    [] e.op = "Read" ->
        LET x == st.pool[e.i] IN
        C("C17.readval", IF Evaluated(x) THEN e.exc = "" /\ e.v = (IF e.aug /\ Single(x) THEN <<A(x)>> ELSE x.f) ELSE e.exc # "") \cup
        C("C09.frame", Frame(e, {}))
    [] e.op = "Cmp" ->
        LET x == st.pool[e.i]  y == st.pool[e.j] IN
        CI("C17.compare", Single(x), IF CmpErr(x, y) THEN e.exc # "" ELSE e.exc = "" /\ e.ans = CmpAns(e, x, y)) \cup
        C("C09.frame", Frame(e, {}))
    [] e.op = "CmpNone" -> C("C17.none", e.exc = "" /\ e.ans)
    [] e.op = "Clone" -> C("C09.ownid", e.own) \cup Clones(e, st.pool[e.i], e.pool[Len(st.pool) + 1]) \cup C("C09.original", Frame(e, {}))
    [] e.op = "Copy" -> Copies(e, st.pool[e.i], e.pool[Len(st.pool) + 1]) \cup C("C09.original", Frame(e, {}))
    [] e.op = "Op" ->
        LET T == Range(e.is) IN
        C("C09.frame", Frame(e, T)) \cup
        (IF ~e.applied THEN C("C17.skipped", Frame(e, {}))
         ELSE C("C17.operated", \A i \in T : e.pool[i].f = <<>>) \cup
              CI("C09.failed", e.failing, \A i \in T : e.pool[i].g = st.pool[i].g) \cup
              C("C09.oprecord", \A i \in T : /\ LET o == e.pool[i].ops  p == st.pool[i].ops IN     \* a fallback adds its own entry
                                                 Len(o) > Len(p) /\ SubSeq(o, 1, Len(p)) = p /\ o[Len(o)] = e.name
                                             /\ e.pool[i].sel = st.pool[i].sel /\ e.pool[i].id = st.pool[i].id
                                             /\ e.pool[i].cf = st.pool[i].cf /\ e.pool[i].gen = st.pool[i].gen
                                             /\ e.pool[i].env = st.pool[i].env))
    [] e.op = "Touch" ->    \* the genome or the records are edited directly: only e.i may change
        C("C09.frame", Frame(e, {e.i})) \cup C("X.touch", See(e.pool[e.i]) # st.pool[e.i])
    [] OTHER -> {"X.unknown"})

TInit == l = 1 /\ st = [pool |-> <<>>]
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l] IN /\ Report(l, Check(e))
                                 /\ st' = IF e.op = "Exc" THEN [pool |-> <<>>] ELSE [pool |-> Seen(e.pool)]
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
