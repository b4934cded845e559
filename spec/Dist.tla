-------------------------------- MODULE Dist --------------------------------
(* The distributions of the random choices.  A choice is a process: draw one *)
(* cell more, decide one bit more, place one node more.  The model carries   *)
(* the whole distribution as integer weights of the outcomes so far and      *)
(* applies the process step by step; the closed forms used to judge counts   *)
(* of the real code must be what the process ends with.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S == INSTANCE Selection WITH M <- 1, F <- {}, TMax <- 1, Bug <- "none",
       fit <- 0, hib <- TRUE, rep <- TRUE, t <- 0, tour <- 0, k <- 0, winner <- 0
Pow(b, e) == S!Pow(b, e)
Binom(n, j) == S!Binom(n, j)
Compatible(x, m, num, den) == S!Compatible(x, m, num, den)

RECURSIVE SumOver(_, _)
SumOver(d, s) == IF s = {} THEN 0 ELSE LET x == CHOOSE y \in s : TRUE IN d[x] + SumOver(d, s \ {x})
Total(d) == SumOver(d, DOMAIN d)
\* one step of a random process: k[s] is the distribution of what follows s
Bind(d, k) == LET outs == UNION {DOMAIN k[s] : s \in DOMAIN d} IN
              [o \in outs |-> LET from == {s \in DOMAIN d : o \in DOMAIN k[s]} IN
                              SumOver([s \in from |-> d[s] * k[s][o]], from)]
Image(d, f(_)) == [o \in {f(s) : s \in DOMAIN d} |-> LET from == {s \in DOMAIN d : f(s) = o} IN SumOver(d, from)]

(* closed forms: probability as <<numerator, denominator>> *)
\* k of n cells, all sets alike; a given set of size s is among them
SetProb(n, kk) == <<1, Binom(n, kk)>>
WithinProb(n, kk, s) == <<Binom(n - s, kk - s), Binom(n, kk)>>
\* kk of n cells chosen, each of them changed with probability a/b: exactly a given set of size s changes
FlipProb(n, kk, a, b, s) == <<IF s > kk THEN 0 ELSE Binom(n - s, kk - s) * Pow(a, s) * Pow(b - a, kk - s), Binom(n, kk) * Pow(b, kk)>>
FlippedProb(kk, a, b, s) == <<Binom(kk, s) * Pow(a, s) * Pow(b - a, kk - s), Pow(b, kk)>>
\* growing: at depths from mn to below mx a node is a leaf with probability a/b
PLeaf(d, mn, mx, a, b) == IF d < mn THEN <<0, 1>> ELSE IF d >= mx THEN <<1, 1>> ELSE <<a, b>>
Of(set, ty) == {x \in set : x.ret = ty}
NodeProb(fs, ts, n, d, mn, mx, a, b) ==
  LET p == PLeaf(d, mn, mx, a, b) IN
  IF n.args = <<>> THEN <<p[1], p[2] * Cardinality(Of(ts, n.ret))>>
  ELSE <<p[2] - p[1], p[2] * Cardinality(Of(fs, n.ret))>>
\* depths of the nodes of a tree in prefix order: the stack holds the depths of the open places
RECURSIVE DepthsFrom(_, _)
DepthsFrom(t, open) ==
  IF t = <<>> THEN <<>>
  ELSE <<Head(open)>> \o DepthsFrom(Tail(t), [j \in DOMAIN Head(t).args |-> Head(open) + 1] \o Tail(open))
RECURSIVE Times(_)
Times(ps) == IF ps = <<>> THEN <<1, 1>> ELSE LET r == Times(Tail(ps)) IN <<Head(ps)[1] * r[1], Head(ps)[2] * r[2]>>
TreeProb(fs, ts, t, mn, mx, a, b) ==
  LET ds == DepthsFrom(t, <<0>>) IN Times([i \in DOMAIN t |-> NodeProb(fs, ts, t[i], ds[i], mn, mx, a, b)])
\* independent choices
Joint(ps, row) == Times([i \in DOMAIN ps |-> IF row[i] = 1 THEN ps[i] ELSE <<ps[i][2] - ps[i][1], ps[i][2]>>])
\* shares, in 1/10000, of values up to 2 deviations below the mean, up to one, up to it, ... beyond 2 above
Gauss == <<228, 1359, 3413, 3413, 1359, 228>>
BinProb(kind, n, i) == IF kind = "gauss" THEN <<Gauss[i], 10000>> ELSE <<1, n>>
\* terminals and one constant of a range of r are drawn alike
LeafProb(nt, r, const) == IF r = 0 THEN <<1, nt>> ELSE IF const THEN <<1, (nt + 1) * r>> ELSE <<1, nt + 1>>
\* a subtree of the first tree out of nf, one of n2 of its type out of the second tree
PickProb(ns) == Times([i \in DOMAIN ns |-> <<1, ns[i]>>])

(***************************************************************************)
CONSTANTS Kind, N, K, A, B, FS, TS, Mn, Mx, Bug
VARIABLES dist, step
vars == <<dist, step>>
U == "U"
Start == IF Kind = "grow" THEN <<<<>>, <<0>>>> ELSE <<{}, {}>>
Init == dist = (Start :> 1) /\ step = 0
\* one cell more is drawn / one drawn cell is decided
Draw(o) == [q \in {<<o[1] \cup {x}, o[2]>> : x \in (1..N) \ (IF Bug = "repeats" THEN {} ELSE o[1])} |-> 1]
Decide(o, c) == IF c \notin o[1] THEN (o :> B)
                ELSE (<<o[1], o[2] \cup {c}>> :> A) @@ (o :> B - A)
NF == Cardinality(FS)
NT == Cardinality(TS)
Unit == B * NF * NT
Place(o) ==
  IF o[2] = <<>> THEN (o :> Unit)
  ELSE LET d == Head(o[2])
           p == PLeaf(IF Bug = "late" THEN d + 1 ELSE d, Mn, Mx, A, B)
           wl == (p[1] * B * NF) \div p[2]  wf == ((p[2] - p[1]) * B * NT) \div p[2] IN
       [q \in {<<Append(o[1], x), [j \in DOMAIN x.args |-> d + 1] \o Tail(o[2])>> : x \in (IF wf = 0 THEN {} ELSE FS) \cup (IF wl = 0 THEN {} ELSE TS)} |->
          IF q[1][Len(q[1])].args = <<>> THEN wl ELSE wf]
Steps == IF Kind = "grow" THEN 7 ELSE IF Kind = "sample" THEN K ELSE K + N
Next == /\ step < Steps
        /\ step' = step + 1
        /\ dist' = Bind(dist, [o \in DOMAIN dist |->
                     IF Kind = "grow" THEN Place(o) ELSE IF step < K THEN Draw(o) ELSE Decide(o, step - K + 1)])
Spec == Init /\ [][Next]_vars

Is(w, tot, p) == w * p[2] = p[1] * tot
Ends == step = Steps
SampleUniform == (Ends /\ Kind = "sample") =>
   LET d == Image(dist, LAMBDA o : o[1])  tot == Total(d) IN
   /\ DOMAIN d = {s \in SUBSET (1..N) : Cardinality(s) = K}
   /\ \A s \in DOMAIN d : Is(d[s], tot, SetProb(N, K))
   /\ \A s \in SUBSET (1..N) : Cardinality(s) <= K =>
        Is(SumOver(d, {x \in DOMAIN d : s \subseteq x}), tot, WithinProb(N, K, Cardinality(s)))
FlipsRight == (Ends /\ Kind = "flips") =>
   LET d == Image(dist, LAMBDA o : o[2])  tot == Total(d)  c == Image(d, LAMBDA s : Cardinality(s)) IN
   /\ \A s \in SUBSET (1..N) : Is(IF s \in DOMAIN d THEN d[s] ELSE 0, tot, FlipProb(N, K, A, B, Cardinality(s)))
   /\ \A x \in 0..K : Is(IF x \in DOMAIN c THEN c[x] ELSE 0, tot, FlippedProb(K, A, B, x))
GrowRight == Kind = "grow" =>
   \A o \in DOMAIN dist : o[2] = <<>> => Is(dist[o], Pow(Unit, step), TreeProb(FS, TS, o[1], Mn, Mx, A, B))
GrowAll == (Ends /\ Kind = "grow") => (\A o \in DOMAIN dist : o[2] = <<>>) /\ Total(dist) = Pow(Unit, step)
=============================================================================
