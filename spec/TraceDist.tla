---- MODULE TraceDist ----
(* Counts of what the real code's random choices gave, judged by the         *)
(* probabilities of Dist.tla (a correct sampler fails with probability below *)
(* 1e-12 per count).                                                         *)
EXTENDS TraceBase
V == INSTANCE Dist WITH Kind <- "none", N <- 0, K <- 0, A <- 0, B <- 1, FS <- {}, TS <- {}, Mn <- 0, Mx <- 0, Bug <- "none",
       dist <- 0, step <- 0
T == INSTANCE TreeChoice WITH Funs <- {}, Terms <- {}, Root <- "none", MinD <- 0, MaxD <- 0, NTrees <- 0, MaxOps <- 0,
       Bug <- "none", trees <- 0, todo <- 0, uid <- 0, ops <- 0, last <- 0, goal <- 0, hit <- 0
VARIABLES l, st

OK(x, m, p) == V!Compatible(x, m, p[1], p[2])
Sum(c) == V!SumOver(c, DOMAIN c)
\* counts over the listed outcomes which satisfy a condition
Count(outs, counts, P(_)) == V!SumOver(counts, {i \in DOMAIN outs : P(outs[i])})
\* trials, one after the other, of an event of probability p: how often, and how often twice in a row
Rate(hits, p) == OK(Cardinality({i \in DOMAIN hits : hits[i] = 1}), Len(hits), p)
Pairs(hits, p) ==
  LET h == Len(hits) \div 2 IN
  \A a, b \in {0, 1} : OK(Cardinality({i \in 1..h : hits[2 * i - 1] = a /\ hits[2 * i] = b}), h, V!Joint(<<p, p>>, <<a, b>>))
Rows(rows, P(_)) == Cardinality({i \in DOMAIN rows : P(rows[i])})

Check(e) ==
  CASE e.op = "Rate" -> C("C32.rate", Rate(e.hits, e.p)) \cup C("C32.independent", Pairs(e.hits, e.p))
    [] e.op = "Rare" -> C("C32.rate", OK(e.x, e.m, e.p))
    [] e.op = "Cells" ->
         LET sets == [i \in DOMAIN e.sets |-> Range(e.sets[i])]  m == Sum(e.counts) IN
         C("C32.cells", \A s \in {x \in SUBSET (1..e.n) : Cardinality(x) \in 1..e.k} :
             /\ OK(Count(sets, e.counts, LAMBDA x : s \subseteq x), m, V!WithinProb(e.n, e.k, Cardinality(s)))
             /\ (Cardinality(s) = e.k => OK(Count(sets, e.counts, LAMBDA x : s = x), m, V!SetProb(e.n, e.k))))
         \cup C("C32.number", \A i \in DOMAIN sets : Cardinality(sets[i]) = e.k)
    [] e.op = "Flips" ->
         LET sets == [i \in DOMAIN e.sets |-> Range(e.sets[i])]  m == Sum(e.counts) IN
         C("C32.flips", \A s \in SUBSET (1..e.n) :
             OK(Count(sets, e.counts, LAMBDA x : s = x), m, V!FlipProb(e.n, e.k, e.p[1], e.p[2], Cardinality(s))))
         \cup C("C32.flipped", \A j \in 0..e.n :
             OK(Count(sets, e.counts, LAMBDA x : Cardinality(x) = j), m, IF j > e.k THEN <<0, 1>> ELSE V!FlippedProb(e.k, e.p[1], e.p[2], j)))
    [] e.op = "Bins" ->
         LET m == Len(e.rows)  w == Len(e.rows[1]) IN
         C("C32.values", \A c \in 1..w, b \in 1..e.n : OK(Rows(e.rows, LAMBDA r : r[c] = b), m, V!BinProb(e.kind, e.n, b)))
         \cup CI("C32.together", e.kind = "uniform" /\ w > 1,
                 \A a, b \in 1..e.n : OK(Rows(e.rows, LAMBDA r : r[1] = a /\ r[w] = b), m, V!Times(<<V!BinProb(e.kind, e.n, a), V!BinProb(e.kind, e.n, b)>>)))
    [] e.op = "Made" ->
         LET all == T!Makes(e.how, Range(e.fs), Range(e.ts), e.root, e.mn, e.mx)
             mn == IF e.how = "full" THEN e.mx ELSE e.mn  m == Sum(e.counts) IN
         C("C32.tree", \A t \in all : OK(Count(e.trees, e.counts, LAMBDA x : x = t), m, V!TreeProb(Range(e.fs), Range(e.ts), t, mn, e.mx, e.p[1], e.p[2])))
         \cup C("C32.nodes", LET ds == [i \in DOMAIN e.trees |-> V!DepthsFrom(e.trees[i], <<0>>)]
                                 At(Q(_, _)) == V!SumOver([i \in DOMAIN e.trees |-> e.counts[i] * Cardinality({j \in DOMAIN ds[i] : Q(e.trees[i][j], ds[i][j])})], DOMAIN e.trees)
                                 free(x, d) == e.how = "grow" /\ d >= e.mn /\ d < e.mx IN
               \* free nodes are leaves as often as asked, and each kind of node as often as any other of its type
               /\ OK(At(LAMBDA x, d : free(x, d) /\ x.args = <<>>), At(free), e.p)
               /\ \A x \in Range(e.fs) \cup Range(e.ts) :
                     LET alike == {y \in Range(e.fs) \cup Range(e.ts) : y.ret = x.ret /\ (y.args = <<>>) = (x.args = <<>>)} IN
                     OK(At(LAMBDA y, d : y = x), At(LAMBDA y, d : y \in alike), <<1, Cardinality(alike)>>))
    [] e.op = "Leaves" ->
         LET m == Sum(e.counts) IN
         C("C32.leaf", \A i \in DOMAIN e.counts : OK(e.counts[i], m, V!LeafProb(e.nt, e.r, i > e.nt)))
         \cup C("C32.leaves", Len(e.counts) = e.nt + e.r)
    [] e.op = "Points" ->
         LET m == Len(e.rows)  ps == T!Picks(e.trees, e.typed)
             ns(q) == [i \in DOMAIN q |-> Cardinality({x \in T!Places(e.trees[i], e.typed) : i > 1 => e.trees[i][x].ret = e.trees[1][q[1]].ret})] IN
         C("C32.points", \A q \in ps : OK(Rows(e.rows, LAMBDA r : r = q), m, V!PickProb(ns(q))))
         \cup C("C32.point", \A i \in DOMAIN e.trees : e.typed \/ \A x \in DOMAIN e.trees[i] : OK(Rows(e.rows, LAMBDA r : r[i] = x), m, <<1, Len(e.trees[i])>>))
         \cup C("C32.places", \A i \in 1..m : e.rows[i] \in ps)
    [] e.op = "Consts" ->
         LET m == Len(e.rows)  q == {i \in DOMAIN e.num : e.num[i]} IN
         C("C32.constants", \A i \in DOMAIN e.num : OK(Rows(e.rows, LAMBDA r : r = i), m, IF i \in q THEN <<1, Cardinality(q)>> ELSE <<0, 1>>))
    [] e.op = "Sequence" ->
         C("C32.sequence", \A row \in [DOMAIN e.p -> {0, 1}] : OK(Rows(e.rows, LAMBDA r : \A i \in DOMAIN row : r[i] = row[i]), Len(e.rows), V!Joint(e.p, row)))
         \cup C("C32.each", \A i \in DOMAIN e.p : OK(Rows(e.rows, LAMBDA r : r[i] = 1), Len(e.rows), e.p[i]) /\ Pairs([j \in DOMAIN e.rows |-> e.rows[j][i]], e.p[i]))
         \cup C("C32.pairs", e.split = <<>>)
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
TInit == l = 1 /\ st = 0
TNext == /\ l <= Len(Trace)
         /\ Report(l, Check(Trace[l])) /\ st' = st
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
====
