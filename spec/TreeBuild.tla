------------------------------ MODULE TreeBuild ------------------------------
(* Trees built by hand, node by node: which nodes are accepted, what editing  *)
(* does, and the text of a tree (C30, C31).                                  *)
EXTENDS Tree

\* what is still asked for after the nodes of t: the types of the open places, innermost first
RECURSIVE OpenFrom(_, _, _)
OpenFrom(t, i, stack) == IF i > Len(t) THEN stack ELSE IF stack = <<>> THEN <<"over">>
                         ELSE OpenFrom(t, i + 1, t[i].args \o Tail(stack))
Open(t, root) == OpenFrom(t, 1, <<root>>)
\* a node is accepted as root, or when its type is the one the next open place asks for
Accepts(t, n) == \/ t = <<>>
                 \/ LET o == Open(t, "none") IN o # <<>> /\ Head(o) = n.ret

\* ------------------------------------------------------------ text of a tree
RECURSIVE TokFrom(_, _, _), Commas(_)
Commas(parts) == IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o <<",">> \o Commas(Tail(parts))
TokFrom(t, i, stack) ==
  IF i = 0 THEN stack[1]
  ELSE IF Leaf(t[i]) THEN TokFrom(t, i - 1, <<<<t[i].s>>>> \o stack)
  ELSE LET n == Len(t[i].args) IN
       TokFrom(t, i - 1, <<<<t[i].s, "(">> \o Commas(SubSeq(stack, 1, n)) \o <<")">>>> \o SubSeq(stack, n + 1, Len(stack)))
Tokens(t) == TokFrom(t, Len(t), <<>>)

\* reading the text back: [ok, t (symbols with number of arguments), i (next token)]
RECURSIVE Read(_, _), ReadArgs(_, _)
ReadArgs(tok, i) ==
  LET a == Read(tok, i) IN
  IF a.i > Len(tok) THEN [t |-> a.t, n |-> 1, i |-> a.i]
  ELSE IF tok[a.i] = "," THEN LET b == ReadArgs(tok, a.i + 1) IN [t |-> a.t \o b.t, n |-> b.n + 1, i |-> b.i]
  ELSE [t |-> a.t, n |-> 1, i |-> a.i + 1]
Read(tok, i) ==
  IF i > Len(tok) THEN [t |-> <<>>, i |-> i]
  ELSE IF i < Len(tok) /\ tok[i + 1] = "("
       THEN LET a == ReadArgs(tok, i + 2) IN [t |-> <<[s |-> tok[i], n |-> a.n]>> \o a.t, i |-> a.i]
       ELSE [t |-> <<[s |-> tok[i], n |-> 0]>>, i |-> i + 1]

(***************************************************************************)
(* The model: nodes are offered one by one; the library's search for the    *)
(* place of the new node (a recursive walk) must accept what Open says.      *)
VARIABLES t, acc
\* result: [p |-> position reached, r |-> "none" / "yes" / "no"]
RECURSIVE Walk(_, _, _), WalkArgs(_, _, _, _)
Walk(tr, p, n) == IF p > Len(tr) THEN [p |-> p, r |-> "yes"]
                  ELSE IF Leaf(tr[p]) THEN [p |-> p, r |-> "none"]
                  ELSE WalkArgs(tr, p, p, [n |-> n, i |-> 1])
WalkArgs(tr, p, q, w) ==
  IF w.i > Len(tr[p].args) THEN [p |-> q, r |-> "none"]
  ELSE IF q + 1 > Len(tr) THEN [p |-> q + 1, r |-> IF tr[p].args[w.i] = w.n.ret THEN "yes" ELSE "no"]
  ELSE LET x == Walk(tr, q + 1, IF Bug = "parent" THEN tr[p] ELSE w.n) IN
       IF x.r # "none" THEN x ELSE WalkArgs(tr, p, x.p, [w EXCEPT !.i = @ + 1])
BInit == Init /\ t = <<>> /\ acc = TRUE
Offer == /\ Len(t) < MaxOps
         /\ \E n \in Funs \cup Terms :
              /\ Walk(t, 1, n).r = "yes"
              /\ t' = Append(t, n)
              /\ acc' = (n.ret = Root)
         /\ UNCHANGED vars
BSpec == BInit /\ [][Offer]_<<vars, t, acc>>
\* the walk accepts exactly the nodes of the type the next open place asks for
WalkIsOpen == \A n \in Funs \cup Terms : (Walk(t, 1, n).r = "yes") = Accepts(t, n)
\* trees are prefixes of well-typed trees, complete when nothing is open
Prefixes == t # <<>> => LET x == Exp(t, t[1].ret) IN Len(x) = Len(t) /\ \A i \in DOMAIN t : t[i].ret = x[i].ty
CompleteIff == t # <<>> => (Open(t, t[1].ret) = <<>>) = WF(t)
\* the text of a complete tree can be read back to the same tree, and so no two trees have one text
TextReadsBack == t # <<>> /\ WF(t) =>
  LET k == Tokens(t)  x == Read(k, 1) IN
  x.i = Len(k) + 1 /\ x.t = [i \in DOMAIN t |-> [s |-> t[i].s, n |-> Len(t[i].args)]]
=============================================================================
