----------------------------- MODULE Selection -----------------------------
(* Selection methods over a source of individuals with known augmented       *)
(* fitness.  The model draws tournaments explicitly and folds better_than    *)
(* over them, as the code does; the closed-form counting used to judge       *)
(* sampled selections of the real code is checked here against enumeration.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Better(a, b, hib) == IF hib THEN a > b ELSE a < b

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 THEN 1 ELSE IF n < k THEN 0 ELSE (Binom(n - 1, k - 1) * n) \div k

\* number of positions not better than / strictly worse than value v
NotBetter(fit, v, hib) == Cardinality({i \in DOMAIN fit : ~Better(fit[i], v, hib)})
Worse(fit, v, hib) == Cardinality({i \in DOMAIN fit : Better(v, fit[i], hib)})
Same(fit, v) == Cardinality({i \in DOMAIN fit : fit[i] = v})

\* tournaments (out of Tours) whose winner has value v
Wins(fit, v, t, hib, replace) ==
  IF replace THEN Pow(NotBetter(fit, v, hib), t) - Pow(Worse(fit, v, hib), t)
  ELSE Binom(NotBetter(fit, v, hib), t) - Binom(Worse(fit, v, hib), t)
Tours(fit, t, replace) == IF replace THEN Pow(Len(fit), t) ELSE Binom(Len(fit), t)

\* fitness proportionate weights of fitness values in units of 1/one; when minimising, unit / fitness
\* (after adding 1, i.e. "one" units, if some fitness is 0); unit is a common multiple of the divisors
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Sum(s) == SumTo(s, Len(s))
HasZero(fit) == \E i \in DOMAIN fit : fit[i] = 0
Weights(fit, hib, unit, one) ==
  IF hib THEN (IF Sum(fit) = 0 THEN [i \in DOMAIN fit |-> 1] ELSE fit)
  ELSE [i \in DOMAIN fit |-> unit \div (fit[i] + IF HasZero(fit) THEN one ELSE 0)]

\* the elites in best-first order: any order of ties
IsBestFirst(order, fit, hib) ==
  /\ \A i, j \in DOMAIN order : i # j => order[i] # order[j]
  /\ \A i \in DOMAIN order : \A j \in DOMAIN fit :
        Better(fit[j], fit[order[i]], hib) => \E k \in 1..(i - 1) : order[k] = j

\* count x of m trials is compatible with probability num/den: Bernstein bound, error < 1e-12
Compatible(x, m, num, den) ==
  LET e == (m * num) \div den
      d == IF x > e THEN x - e ELSE e - x
      var == IF e + 1 < m - e + 1 THEN e + 1 ELSE m - e + 1
  IN IF num = 0 THEN x = 0
     ELSE IF num = den THEN x = m
     ELSE d <= 1 \/ (d - 1) * (d - 1) <= 60 * var + 20 * d

(***************************************************************************)
CONSTANTS M,        \* source size
          F,        \* fitness values
          TMax,     \* tournament sizes
          Bug
VARIABLES fit, hib, rep, t, tour, k, winner
vars == <<fit, hib, rep, t, tour, k, winner>>

Draws(n, s, r) == {d \in [1..s -> 1..n] : r \/ \A i, j \in 1..s : i # j => d[i] # d[j]}

Init == /\ fit \in [1..M -> F] /\ hib \in BOOLEAN /\ rep \in BOOLEAN
        /\ t \in 1..TMax
        /\ tour \in Draws(M, t, rep)
        /\ winner = tour[1] /\ k = 2
Fold == /\ k <= t
        /\ winner' = IF (IF Bug = "reversed" THEN Better(fit[winner], fit[tour[k]], hib)
                         ELSE Better(fit[tour[k]], fit[winner], hib))
                     THEN tour[k] ELSE winner
        /\ k' = IF Bug = "skip_last" /\ k = t - 1 THEN k + 2 ELSE k + 1
        /\ UNCHANGED <<fit, hib, rep, t, tour>>
Next == Fold
Spec == Init /\ [][Next]_vars

Done == k > t
WinnerIsBest == Done => \A i \in 1..t : ~Better(fit[tour[i]], fit[winner], hib)
\* without replacement the t-1 worst never win
NotAmongWorst == (Done /\ ~rep) => Worse(fit, fit[winner], hib) + Same(fit, fit[winner]) >= t
\* the counting formula agrees with enumeration of all tournaments
\* (unordered without replacement: each set stands for t! ordered draws)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
WonBy(v) == {d \in Draws(M, t, rep) : \E i \in 1..t : fit[d[i]] = v /\ \A j \in 1..t : ~Better(fit[d[j]], v, hib)}
CountingRight ==
  (k = 2 /\ tour = [i \in 1..t |-> IF rep THEN 1 ELSE i]) =>
     \A v \in F : Cardinality(WonBy(v)) = Wins(fit, v, t, hib, rep) * (IF rep THEN 1 ELSE Fact(t))
=============================================================================
