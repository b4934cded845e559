------------------------------- MODULE Stats -------------------------------
(* What the statistics and the queries of a population say, for any order of  *)
(* the members.  A member is [f (pure fitness, eighths), size, g (identity)]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
INF == 100000000
Aug(m, w, hib) == IF m.f >= INF \/ m.f <= -INF \/ w = 0 THEN m.f ELSE IF hib THEN m.f - w * m.size ELSE m.f + w * m.size
Leq(x, y, hib) == IF hib THEN x <= y ELSE x >= y      \* y at least as good as x
BestSet(p, w, hib) == {i \in DOMAIN p : \A j \in DOMAIN p : Leq(Aug(p[j], w, hib), Aug(p[i], w, hib), hib)}
WorstSet(p, w, hib) == {i \in DOMAIN p : \A j \in DOMAIN p : Leq(Aug(p[i], w, hib), Aug(p[j], w, hib), hib)}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Pure(p) == [i \in DOMAIN p |-> p[i].f]
Sizes(p) == [i \in DOMAIN p |-> p[i].size]
Abs(x) == IF x < 0 THEN -x ELSE x
\* q: 1000 times the sum of values that a reported mean implies; infinite values make the mean infinite or undefined
NAN == -777777777
MeanOk(s, q) ==
  LET pos == \E i \in DOMAIN s : s[i] >= INF  neg == \E i \in DOMAIN s : s[i] <= -INF IN
  IF pos /\ neg THEN q = NAN ELSE IF pos THEN q = INF ELSE IF neg THEN q = -INF ELSE Abs(q - 1000 * Sum(s)) <= 1
\* corners of a front: the distinct points that are extreme in the first of two objectives
Corners(P, F) == LET lo == CHOOSE i \in F : \A j \in F : P[i][1] <= P[j][1]
                     hi == CHOOSE i \in F : \A j \in F : P[i][1] >= P[j][1] IN {P[lo], P[hi]}

(* --------- sorting implementation against the declarative definitions ---- *)
CONSTANTS Members, N, Hib, W, Bug
VARIABLES pop, rep, pre, ph
vars == <<pop, rep, pre, ph>>
\* adding up floating-point numbers one by one
RECURSIVE Fold(_, _)
FAdd(a, b) == IF a = NAN \/ b = NAN THEN NAN ELSE IF a >= INF THEN (IF b <= -INF THEN NAN ELSE INF)
              ELSE IF a <= -INF THEN (IF b >= INF THEN NAN ELSE -INF) ELSE IF b >= INF THEN INF ELSE IF b <= -INF THEN -INF ELSE a + b
Fold(s, a) == IF s = <<>> THEN a ELSE Fold(Tail(s), FAdd(a, IF Head(s) >= INF \/ Head(s) <= -INF THEN Head(s) ELSE 1000 * Head(s)))
MeanQ(s) == Fold(s, 0)
\* a stable sort, best first
RECURSIVE Insert(_, _, _)
Key(m, b) == IF b = "pure" THEN m.f ELSE Aug(m, W, Hib)
Insert(s, m, desc) == IF s = <<>> THEN <<m>>
  ELSE IF (IF desc THEN Key(m, Bug) > Key(Head(s), Bug) ELSE Key(m, Bug) < Key(Head(s), Bug)) THEN <<m>> \o s
  ELSE <<Head(s)>> \o Insert(Tail(s), m, desc)
RECURSIVE Sorted(_, _)
Sorted(s, desc) == IF s = <<>> THEN <<>> ELSE Insert(Sorted(SubSeq(s, 1, Len(s) - 1), desc), s[Len(s)], desc)
Init == /\ pop \in [1..N -> Members] /\ pre = pop /\ rep = [b |-> 0, w |-> 0, s |-> 0] /\ ph = "ask"
Ask == /\ ph = "ask" /\ ph' = "told"
       /\ LET dir == IF Bug = "direction" THEN TRUE ELSE Hib
              best == Sorted(pop, dir)  worst == Sorted(pop, IF Bug = "worst_is_last_best" THEN dir ELSE ~dir) IN
          /\ rep' = [b |-> best[1].f, w |-> IF Bug = "worst_is_last_best" THEN best[N - 1].f ELSE worst[1].f, s |-> MeanQ(Pure(pop))]
          /\ pop' = IF Bug = "in_place" THEN best ELSE pop
       /\ UNCHANGED pre
Next == Ask
Spec == Init /\ [][Next]_vars
Told == ph = "told" => /\ \E i \in BestSet(pre, W, Hib) : rep.b = pre[i].f
                       /\ \E i \in WorstSet(pre, W, Hib) : rep.w = pre[i].f
                       /\ MeanOk(Pure(pre), rep.s)
Unchanged == pop = pre
Mirror == BestSet(pre, W, Hib) = BestSet([i \in DOMAIN pre |-> [pre[i] EXCEPT !.f = -@]], W, ~Hib)
=============================================================================
