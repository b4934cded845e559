-------------------------------- MODULE Tree --------------------------------
(* GP trees as sequences of nodes in prefix order.  A node is a record with  *)
(* at least  s (symbol), args (types of its parameters), ret (its type), u   *)
(* (identity of the node object).  Types are strings; "none" is untyped.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------------------ structure
RECURSIVE EndFrom(_, _, _)
\* last index of the `need` subtrees that start at i; 0 when the sequence is too short
EndFrom(t, i, need) == IF need = 0 THEN i - 1
                       ELSE IF i > Len(t) THEN 0
                       ELSE EndFrom(t, i + 1, need - 1 + Len(t[i].args))
End(t, p) == EndFrom(t, p, 1)
WF(t) == Len(t) > 0 /\ End(t, 1) = Len(t)
Sub(t, p) == SubSeq(t, p, End(t, p))
Splice(t, p, s) == SubSeq(t, 1, p - 1) \o s \o SubSeq(t, End(t, p) + 1, Len(t))

RECURSIVE ExpFrom(_, _, _)
\* what each position must be: its type (asked for by the parent) and its depth
ExpFrom(t, i, stack) ==
  IF i > Len(t) \/ stack = <<>> THEN <<>>
  ELSE <<Head(stack)>> \o
       ExpFrom(t, i + 1, [j \in 1..Len(t[i].args) |-> [ty |-> t[i].args[j], d |-> Head(stack).d + 1]] \o Tail(stack))
Exp(t, root) == ExpFrom(t, 1, <<[ty |-> root, d |-> 0]>>)
Typed(t, root) == LET x == Exp(t, root) IN Len(x) = Len(t) /\ \A i \in DOMAIN t : t[i].ret = x[i].ty
Max(S) == CHOOSE m \in S : \A y \in S : y <= m
Depth(t) == LET x == Exp(t, "none") IN Max({x[i].d : i \in DOMAIN x})
Leaf(n) == n.args = <<>>

\* ------------------------------------------------------------ creation rules
LeafDepths(t) == LET x == Exp(t, "none") IN {x[i].d : i \in {j \in DOMAIN t : Leaf(t[j])}}
FullRule(t, mx) == LeafDepths(t) = {mx}
GrowRule(t, mn, mx) == \A d \in LeafDepths(t) : d >= mn /\ d <= mx

\* ramped half-and-half: may the n trees with depths ds (fulls: those whose leaves all lie
\* at one depth) be g grow + g full trees per depth, and the rest full ones of depth mx ?
Count(S) == Cardinality(S)
HalfRule(ts, n, mn, mx) ==
  LET g == n \div (2 * (mx - mn + 1))
      rest == n - g * 2 * (mx - mn + 1)
      De == [i \in DOMAIN ts |-> Depth(ts[i])]
      All(D) == Count({i \in DOMAIN ts : De[i] = D})
      Fulls(D) == Count({i \in DOMAIN ts : LeafDepths(ts[i]) = {D}})
      Want(D) == g + (IF D = mx THEN rest ELSE 0)
      \* those left over for the grow groups
      RECURSIVE Deeper(_)
      Deeper(d) == IF d >= mx THEN 0 ELSE All(d + 1) - Want(d + 1) + Deeper(d + 1)
  IN /\ Len(ts) = n
     /\ \A i \in DOMAIN ts : GrowRule(ts[i], mn, mx)
     /\ \A D \in mn..mx : Fulls(D) >= Want(D)
     /\ \A d \in mn..mx : Deeper(d) <= g * (mx - d)
GroupSize(n, mn, mx) == n \div (2 * (mx - mn + 1))

\* ------------------------------------------------------------ operators
\* content of a node, without its identity
K(n) == <<n.s, n.ret>>
KS(t) == [i \in DOMAIN t |-> K(t[i])]
\* could the subtree at p of t have been replaced to give u ?  (then by which nodes)
Fits(t, u, p) == LET e == End(t, p)  tail == Len(t) - e
                 IN /\ Len(u) >= p + tail
                    /\ SubSeq(u, 1, p - 1) = SubSeq(t, 1, p - 1)
                    /\ SubSeq(u, Len(u) - tail + 1, Len(u)) = SubSeq(t, e + 1, Len(t))
Mid(t, u, p) == SubSeq(u, p, Len(u) - (Len(t) - End(t, p)))

\* pre, post: sequences of trees (contents only, via strip); tree i+1 gets tree i's subtree
IsCrossover(pre, post, kpre, kpost, typed) ==
  LET m == Len(pre)
      Cand(i) == {p \in 1..Len(pre[i]) : LET e == End(pre[i], p)  tail == Len(pre[i]) - e IN
                     /\ Len(post[i]) >= p + tail
                     /\ SubSeq(kpost[i], 1, p - 1) = SubSeq(kpre[i], 1, p - 1)
                     /\ SubSeq(kpost[i], Len(post[i]) - tail + 1, Len(post[i])) = SubSeq(kpre[i], e + 1, Len(pre[i]))}
      Got(i, p) == SubSeq(kpost[i], p, Len(post[i]) - (Len(pre[i]) - End(pre[i], p)))
      Gave(i, p) == SubSeq(kpre[i], p, End(pre[i], p))
      prev(i) == IF i = 1 THEN m ELSE i - 1
      RECURSIVE Chain(_, _, _)
      \* positions of trees 1..i chosen, the last one q; first one p1
      Chain(i, q, p1) ==
        IF i = m THEN Got(1, p1) = Gave(m, q)
        ELSE \E p \in Cand(i + 1) : /\ Got(i + 1, p) = Gave(i, q)
                                    /\ (typed => pre[i + 1][p].ret = pre[1][p1].ret)
                                    /\ Chain(i + 1, p, p1)
  IN \E p1 \in Cand(1) : Chain(1, p1, p1)

\* post is pre with one subtree replaced by a complete tree of the same type
IsMutation(pre, post, kpre, kpost, mn, mx, rule) ==
  \E p \in 1..Len(pre) :
     LET e == End(pre, p)  tail == Len(pre) - e IN
     /\ Len(post) >= p + tail
     /\ SubSeq(kpost, 1, p - 1) = SubSeq(kpre, 1, p - 1)
     /\ SubSeq(kpost, Len(post) - tail + 1, Len(post)) = SubSeq(kpre, e + 1, Len(pre))
     /\ LET s == SubSeq(post, p, Len(post) - tail) IN
        WF(s) /\ Typed(s, pre[p].ret) /\ (rule => GrowRule(s, mn, mx))

\* ------------------------------------------------------------ execution
\* a missing value makes every sum, difference, product and negation missing
NA == -999999
Arith == {"f_add", "add2floats", "f_sub", "sub2floats", "f_mul", "mul2floats", "f_neg", "neg_float"}
RECURSIVE EvalFrom(_, _, _)
\* evaluate right to left with a stack of values; the semantics of symbols is App(s, args)
Iff(c, a, b) == IF c THEN a ELSE b
App(s, a) ==
  CASE s \in Arith /\ (\E k \in DOMAIN a : a[k] = NA) -> NA
    [] s \in {"f_add", "add2floats"} -> a[1] + a[2]
    [] s \in {"f_sub", "sub2floats"} -> a[1] - a[2]
    [] s \in {"f_mul", "mul2floats"} -> a[1] * a[2]
    [] s \in {"f_neg", "neg_float"} -> -a[1]
    [] s \in {"f_abs", "abs_float"} -> Iff(a[1] < 0, -a[1], a[1])
    [] s \in {"f_max", "max2floats"} -> Iff(a[1] >= a[2], a[1], a[2])
    [] s \in {"f_min", "min2floats"} -> Iff(a[1] <= a[2], a[1], a[2])
    [] s \in {"f_iflte0", "iflte0_floats"} -> Iff(a[1] <= 0, a[2], a[3])
    [] s \in {"f_ifgt0", "ifgt0_floats"} -> Iff(a[1] > 0, a[2], a[3])
    [] s \in {"f_iflte", "iflte_floats"} -> Iff(a[1] <= a[2], a[3], a[4])
    [] s \in {"f_ifgt", "ifgt_floats"} -> Iff(a[1] > a[2], a[3], a[4])
    [] s \in {"if_then_else3ints", "f_if_then_else", "if_then_else3bools", "pick"} -> Iff(a[1] # 0, a[2], a[3])
    [] s = "scaled" -> Iff(a[3] # 0, a[1] * a[2], a[1])
    [] s \in {"and2bools", "and2ints"} -> Iff(a[1] # 0 /\ a[2] # 0, 1, 0)
    [] s \in {"or2bools", "or2ints"} -> Iff(a[1] # 0 \/ a[2] # 0, 1, 0)
    [] s \in {"not2bools", "not2ints", "f_not"} -> Iff(a[1] = 0, 1, 0)
    [] s \in {"twice"} -> 2 * a[1]
    [] s \in {"isless", "islessi"} -> Iff(a[1] < a[2], 1, 0)
    [] s = "tofloat" -> a[1]
    [] s \in {"addi"} -> a[1] + a[2]
    [] OTHER -> a[Len(a)]          \* third, and the functions made by the driver, give their last argument
EvalFrom(t, i, stack) ==
  IF i = 0 THEN stack[1]
  ELSE IF Leaf(t[i]) THEN EvalFrom(t, i - 1, <<t[i].val>> \o stack)
  ELSE LET n == Len(t[i].args) IN
       EvalFrom(t, i - 1, <<App(t[i].s, SubSeq(stack, 1, n))>> \o SubSeq(stack, n + 1, Len(stack)))
\* the value of t when variable x has value env[x]; constants carry their value in v
Eval(t, env) == EvalFrom([i \in DOMAIN t |-> [s |-> t[i].s, args |-> t[i].args,
                           val |-> IF t[i].k = "v" THEN env[t[i].s] ELSE t[i].v]], Len(t), <<>>)

\* evaluated over terms instead of numbers: a function gives the term of its name and its arguments, in prefix form
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
RECURSIVE TermFrom(_, _, _)
TermFrom(t, i, stack) ==
  IF i = 0 THEN stack[1]
  ELSE LET n == t[i].n IN
       TermFrom(t, i - 1, <<<<t[i].val>> \o Flat(SubSeq(stack, 1, n))>> \o SubSeq(stack, n + 1, Len(stack)))
TermOf(t) == TermFrom(t, Len(t), <<>>)

(***************************************************************************)
(* The model: two trees are grown node by node, then operated on.           *)
CONSTANTS Funs, Terms, Root, MinD, MaxD, NTrees, MaxOps, Bug
VARIABLES trees, todo, uid, ops, last
vars == <<trees, todo, uid, ops, last>>

Init == trees = <<<<>>>> /\ todo = <<[ty |-> Root, d |-> 0]>> /\ uid = 1 /\ ops = 0 /\ last = [op |-> "init", pre |-> <<>>]

Building == todo # <<>> \/ Len(trees) < NTrees
\* grow: functions above min depth, terminals at max depth, either in between
MayFun(d) == d < MaxD \/ (Bug = "grow_late" /\ d = MaxD)
MayTerm(d) == d >= MinD
Place == /\ todo # <<>>
         /\ \E n \in (IF MayFun(todo[1].d) THEN Funs ELSE {}) \cup (IF MayTerm(todo[1].d) THEN Terms ELSE {}) :
              /\ n.ret = todo[1].ty \/ Bug = "untyped_terms"
              /\ trees' = [trees EXCEPT ![Len(trees)] = Append(@, [s |-> n.s, args |-> n.args, ret |-> n.ret, u |-> uid])]
              /\ todo' = [j \in 1..Len(n.args) |-> [ty |-> n.args[j], d |-> todo[1].d + 1]] \o Tail(todo)
         /\ uid' = uid + 1 /\ UNCHANGED <<ops, last>>
NextTree == /\ todo = <<>> /\ Len(trees) < NTrees
            /\ trees' = Append(trees, <<>>) /\ todo' = <<[ty |-> Root, d |-> 0]>> /\ UNCHANGED <<uid, ops, last>>

BSub(t, p) == IF Bug = "end_short" /\ End(t, p) > p THEN SubSeq(t, p, End(t, p) - 1) ELSE Sub(t, p)
Cross == /\ ~Building /\ ops < MaxOps /\ ops' = ops + 1
         /\ \E p \in DOMAIN trees[1], q \in DOMAIN trees[2] :
              /\ trees[1][p].ret = trees[2][q].ret \/ Bug = "any_type"
              /\ trees' = [trees EXCEPT ![1] = Splice(@, p, BSub(trees[2], q)),
                                        ![2] = IF Bug = "share" THEN @ ELSE Splice(@, q, BSub(trees[1], p))]
         /\ last' = [op |-> "cross", pre |-> trees] /\ UNCHANGED <<todo, uid>>
\* new subtrees of depth at most 1
Fresh(ty) == {<<[s |-> n.s, args |-> <<>>, ret |-> ty, u |-> uid]>> : n \in {m \in Terms : m.ret = ty}}
             \cup {<<[s |-> f.s, args |-> f.args, ret |-> ty, u |-> uid]>> \o
                   [j \in 1..Len(f.args) |-> LET m == CHOOSE m \in Terms : m.ret = f.args[j]
                                             IN [s |-> m.s, args |-> <<>>, ret |-> m.ret, u |-> uid + j]]
                   : f \in {g \in Funs : g.ret = ty}}
Mutate == /\ ~Building /\ ops < MaxOps /\ ops' = ops + 1
          /\ \E i \in 1..NTrees : \E p \in DOMAIN trees[i] : \E s \in Fresh(trees[i][p].ret) :
               /\ trees' = [trees EXCEPT ![i] = Splice(@, p, s)]
               /\ last' = [op |-> "mut" , pre |-> trees]
          /\ uid' = uid + 5 /\ UNCHANGED todo
Next == Place \/ NextTree \/ Cross \/ Mutate
Spec == Init /\ [][Next]_vars

Complete(i) == i < Len(trees) \/ todo = <<>>
WellFormed == \A i \in DOMAIN trees : Complete(i) => WF(trees[i])
WellTyped == \A i \in DOMAIN trees : Complete(i) => Typed(trees[i], Root)
\* the term a tree evaluates to is the tree
Terms1 == \A i \in DOMAIN trees : Complete(i) =>
            TermOf([k \in DOMAIN trees[i] |-> [n |-> Len(trees[i][k].args), val |-> trees[i][k].s]]) = [k \in DOMAIN trees[i] |-> trees[i][k].s]
Grown == ops = 0 => \A i \in DOMAIN trees : Complete(i) => GrowRule(trees[i], MinD, MaxD)
Uids(t) == {t[i].u : i \in DOMAIN t}
NoSharing == /\ \A i \in DOMAIN trees : Cardinality(Uids(trees[i])) = Len(trees[i])
             /\ \A i, j \in DOMAIN trees : i # j => Uids(trees[i]) \cap Uids(trees[j]) = {}
\* what the trace specification asks of a crossover or mutation is true of the model's
Recognised == last.op = "cross" =>
                 IsCrossover(last.pre, trees, [i \in 1..2 |-> KS(last.pre[i])], [i \in 1..2 |-> KS(trees[i])], TRUE)
Conserved == last.op = "cross" => Uids(trees[1]) \cup Uids(trees[2]) = Uids(last.pre[1]) \cup Uids(last.pre[2])
MutRecognised == last.op = "mut" => \E i \in DOMAIN trees :
                    /\ IsMutation(last.pre[i], trees[i], KS(last.pre[i]), KS(trees[i]), 0, 1, TRUE)
                    /\ \A j \in DOMAIN trees : j # i => trees[j] = last.pre[j]
=============================================================================
