------------------------------- MODULE Vector -------------------------------
(* Vector individuals and their operators.                                  *)
(*                                                                          *)
(* A pool of vectors of one length over per-cell inclusive bounds; creators, *)
(* k-point crossover, n-point mutation, bit flips and the failable-operator  *)
(* protocol (attempts, rollback, fallback) act on it.  The relations below   *)
(* are used by the bounded model (Next) and by the trace specification.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

---------------------------------------------------------------------------
(* Relations on vectors (pure)                                              *)

\* (FiniteSetsExt!kSubset returns sets TLC does not compare reliably)
KSub(k, S) == {x \in SUBSET S : Cardinality(x) = k}

InB(v, lo, hi) == \A p \in DOMAIN v : lo[p] <= v[p] /\ v[p] <= hi[p]

Diff(u, v) == {p \in DOMAIN u : u[p] # v[p]}

\* is position p exchanged by a crossover with cut set `cuts`?  Cut c lies
\* between positions c and c+1; the segment before the first cut is exchanged
Exch(p, cuts) == (Cardinality({c \in cuts : c < p}) % 2) = 0

KPoint(u, v, cuts) ==
  << [p \in DOMAIN u |-> IF Exch(p, cuts) THEN v[p] ELSE u[p]],
     [p \in DOMAIN v |-> IF Exch(p, cuts) THEN u[p] ELSE v[p]] >>

\* exchanging the odd or the even segments gives the same pair of offspring up
\* to which parent carries which: both are "every other segment"
KPointAlt(u, v, cuts) ==
  << [p \in DOMAIN u |-> IF Exch(p, cuts) THEN u[p] ELSE v[p]],
     [p \in DOMAIN v |-> IF Exch(p, cuts) THEN v[p] ELSE u[p]] >>

CutSets(n, k) == KSub(k, 1..(n-1))

XOOk(k, u, v, u2, v2) ==
  \/ \E cuts \in CutSets(Len(u), k) :
       <<u2, v2>> = KPoint(u, v, cuts) \/ <<u2, v2>> = KPointAlt(u, v, cuts)

\* the same decided position by position (for long vectors): the <<is position p
\* exchanged, number of cuts so far>> that explain the first p positions
FitsMode(p, m, u, v, u2, v2) ==
  IF m THEN u2[p] = v[p] /\ v2[p] = u[p] ELSE u2[p] = u[p] /\ v2[p] = v[p]
RECURSIVE Explains(_, _, _, _, _, _)
Explains(p, k, u, v, u2, v2) ==
  IF p = 1 THEN {<<m, 0>> : m \in {x \in BOOLEAN : FitsMode(1, x, u, v, u2, v2)}}
  ELSE LET before == Explains(p - 1, k, u, v, u2, v2)
           fit == {x \in BOOLEAN : FitsMode(p, x, u, v, u2, v2)}
       IN {y \in {<<m, b[2] + IF b[1] = m THEN 0 ELSE 1>> : m \in fit, b \in before} : y[2] <= k}
XOFits(k, u, v, u2, v2) ==
  \E m \in BOOLEAN : <<m, k>> \in Explains(Len(u), k, u, v, u2, v2)

XOOutcomes(k, u, v) == {KPoint(u, v, cuts) : cuts \in CutSets(Len(u), k)}
XOOutcomesAlt(k, u, v) == {KPointAlt(u, v, cuts) : cuts \in CutSets(Len(u), k)}

\* n-point mutation: n distinct positions receive in-bounds values
MutOk(n, u, u2, lo, hi) ==
  /\ Len(u2) = Len(u)
  /\ Cardinality(Diff(u, u2)) <= n
  /\ InB(u2, lo, hi)

FlipOk(u, u2, lo, hi) ==
  /\ Len(u2) = Len(u)
  /\ \E p \in DOMAIN u : u2 = [u EXCEPT ![p] = IF u[p] = lo[p] THEN hi[p] ELSE lo[p]]

NFlipOk(n, u, u2, lo, hi) ==
  /\ Len(u2) = Len(u)
  /\ Cardinality(Diff(u, u2)) <= n
  /\ \A p \in Diff(u, u2) : u2[p] = (IF u[p] = lo[p] THEN hi[p] ELSE lo[p])

WriteCells(u, cells, vals) ==
  [p \in DOMAIN u |->
     IF \E q \in DOMAIN cells : cells[q] = p
     THEN vals[CHOOSE q \in DOMAIN cells : cells[q] = p /\ \A r \in DOMAIN cells : cells[r] = p => r <= q]
     ELSE u[p]]

---------------------------------------------------------------------------
(* The failable-operator protocol over a recorded or modelled attempt log.   *)
(* An attempt is a sequence of [i, cells, vals, old, new, ok] records, one   *)
(* per individual it got to.                                                 *)

AttemptAccepts(att, m) ==
  /\ {att[x].i : x \in DOMAIN att} = 1..m
  /\ \A x \in DOMAIN att : att[x].ok

\* what the genomes must be after the attempts of `log`
FinalGenomes(pre, log) ==
  IF log # <<>> /\ AttemptAccepts(log[Len(log)], Len(pre))
  THEN [i \in DOMAIN pre |->
          LET a == log[Len(log)]
              x == CHOOSE x \in DOMAIN a : a[x].i = i
          IN WriteCells(pre[i], a[x].cells, a[x].vals)]
  ELSE pre

\* every attempt starts from the original genomes
AttemptClean(pre, att) ==
  \A x \in DOMAIN att :
    /\ att[x].old = pre[att[x].i]
    /\ att[x].new = WriteCells(pre[att[x].i], att[x].cells, att[x].vals)

LogOk(pre, log, maxAtt) ==
  /\ 1 <= Len(log) /\ Len(log) <= maxAtt
  /\ \A t \in 1..(Len(log)-1) : ~AttemptAccepts(log[t], Len(pre))
  /\ AttemptAccepts(log[Len(log)], Len(pre)) \/ Len(log) = maxAtt

---------------------------------------------------------------------------
(* Bounded model: two vectors, operators applied in any order               *)

CONSTANTS N,          \* length
          Lo, Hi,     \* per-cell bounds (sequences of length N)
          MaxN,       \* largest n of an n-point mutation
          MaxAtt,     \* attempts of the failable operator
          Bug         \* "none", or the name of a seeded design error

VARIABLES vec, last, att, phase, saved, cur

vars == <<vec, last, att, phase, saved, cur>>

CellVals(p) == Lo[p]..Hi[p]
AllVecs == {v \in [1..N -> UNION {CellVals(p) : p \in 1..N}] : InB(v, Lo, Hi)}

Idle == phase = "idle"

Init ==
  /\ vec \in [1..2 -> AllVecs]
  /\ last = [op |-> "create", pre |-> vec, n |-> 0]
  /\ att = 0 /\ phase = "idle" /\ saved = <<>> /\ cur = 0

Crossover(k) ==
  /\ Idle
  /\ \E cuts \in CutSets(N, k) :
       LET c == IF Bug = "xo_shift" THEN {IF x = 1 THEN 1 ELSE x - 1 : x \in cuts} ELSE cuts
           r == KPoint(vec[1], vec[2], c)
       IN vec' = [i \in 1..2 |-> r[i]]
  /\ last' = [op |-> "xo", pre |-> vec, n |-> k]
  /\ UNCHANGED <<att, phase, saved, cur>>

Mutate(i, n) ==
  /\ Idle
  /\ \E P \in KSub(n, 1..N) :
       \E w \in AllVecs :
         LET new == [p \in 1..N |-> IF p \in P THEN w[p] ELSE vec[i][p]]
         IN vec' = [vec EXCEPT ![i] = new]
  /\ last' = [op |-> "mut", pre |-> vec, n |-> n]
  /\ UNCHANGED <<att, phase, saved, cur>>

Flip(i) ==
  /\ Idle
  /\ \E p \in 1..N :
       vec' = [vec EXCEPT ![i] = [@ EXCEPT ![p] = IF @ = Lo[p] THEN Hi[p] ELSE Lo[p]]]
  /\ last' = [op |-> "flip", pre |-> vec, n |-> 1]
  /\ UNCHANGED <<att, phase, saved, cur>>

(* failable operator on both vectors: noise may leave the bounds            *)
Wild(p) == (Lo[p]-1)..(Hi[p]+1)

StartFailable ==
  /\ Idle /\ phase' = "try" /\ att' = 1 /\ saved' = vec /\ cur' = 1
  /\ UNCHANGED vec
  /\ last' = [op |-> "start", pre |-> vec, n |-> 1]

TryOne ==
  /\ phase = "try"
  /\ \E p \in 1..N : \E x \in Wild(p) :
       LET new == [vec EXCEPT ![cur] = [@ EXCEPT ![p] = x]]
           ok  == InB(new[cur], Lo, Hi)
       IN IF ok
          THEN IF cur = 2
               THEN vec' = new /\ phase' = "idle" /\ att' = 0 /\ saved' = <<>> /\ cur' = 0
                    /\ last' = [op |-> "fail_ok", pre |-> saved, n |-> 1]
               ELSE vec' = new /\ cur' = 2 /\ UNCHANGED <<phase, att, saved, last>>
          ELSE /\ vec' = (IF Bug = "rollback_last_only" THEN [new EXCEPT ![cur] = saved[cur]] ELSE saved)
               /\ cur' = 1 /\ UNCHANGED saved
               /\ IF att < MaxAtt
                  THEN att' = att + 1 /\ UNCHANGED <<phase, last>>
                  ELSE phase' = "failed" /\ UNCHANGED <<att, last>>

GiveUp ==   \* on_fail: unchanged
  /\ phase = "failed" /\ phase' = "idle" /\ att' = 0 /\ saved' = <<>> /\ cur' = 0
  /\ UNCHANGED vec
  /\ last' = [op |-> "gaveup", pre |-> saved, n |-> 0]

Fallback ==  \* on_fail of the gaussian mutations: one in-bounds uniform mutation
  /\ phase = "failed" /\ phase' = "idle" /\ att' = 0 /\ saved' = <<>> /\ cur' = 0
  /\ \E f \in [1..2 -> UNION {{<<p, x>> : x \in CellVals(p)} : p \in 1..N}] :
       vec' = [i \in 1..2 |-> [vec[i] EXCEPT ![f[i][1]] = f[i][2]]]
  /\ last' = [op |-> "mut2", pre |-> saved, n |-> 1]

Next ==
  \/ \E k \in 1..(N-1) : Crossover(k)
  \/ \E i \in 1..2, n \in 1..MaxN : Mutate(i, n)
  \/ \E i \in 1..2 : Flip(i)
  \/ StartFailable \/ TryOne \/ GiveUp \/ Fallback

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Properties of the model                                                  *)

TypeOK == phase \in {"idle", "try", "failed"} /\ att \in 0..MaxAtt

\* C10
KeepsLength == \A i \in 1..2 : DOMAIN vec[i] = 1..N
KeepsBounds == Idle => \A i \in 1..2 : InB(vec[i], Lo, Hi)

\* C11
XOExact ==
  last.op = "xo" =>
    /\ \A p \in 1..N : \/ vec[1][p] = last.pre[1][p] /\ vec[2][p] = last.pre[2][p]
                       \/ vec[1][p] = last.pre[2][p] /\ vec[2][p] = last.pre[1][p]
    /\ XOOk(last.n, last.pre[1], last.pre[2], vec[1], vec[2])
\* the position by position decision agrees with the definition, for any pair of results
FitsIsOk ==
  last.op \in {"xo", "mut", "flip"} =>
    \A k \in 1..(N-1) :
      XOFits(k, last.pre[1], last.pre[2], vec[1], vec[2]) = XOOk(k, last.pre[1], last.pre[2], vec[1], vec[2])

\* C12
MutLocal ==
  (last.op \in {"mut", "mut2", "fail_ok"} /\ Idle) =>
     \A i \in 1..2 : MutOk(last.n, last.pre[i], vec[i], Lo, Hi)
FlipExact == last.op = "flip" => \E i \in 1..2 : FlipOk(last.pre[i], vec[i], Lo, Hi)
FailedAttemptLeavesNoTrace ==
  /\ phase = "failed" => vec = saved
  /\ (phase = "try" /\ cur = 1) => vec = saved
  /\ last.op = "gaveup" => vec = last.pre
=============================================================================
