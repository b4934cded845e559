----------------------------- MODULE TreeChoice -----------------------------
(* What can come out of the random choices of tree creation, mutation and    *)
(* crossover: every outcome the rules of Tree.tla allow is possible, no      *)
(* other one is.  Legal is the set of trees of a type at a depth.            *)
EXTENDS Tree

RECURSIVE Legal(_, _, _, _, _, _), Forest(_, _, _, _, _, _)
Legal(fs, ts, ty, d, mn, mx) ==
  (IF d >= mn THEN {<<m>> : m \in {x \in ts : x.ret = ty}} ELSE {}) \cup
  (IF d < mx THEN UNION {{<<f>> \o r : r \in Forest(fs, ts, f.args, d + 1, mn, mx)} : f \in {g \in fs : g.ret = ty}} ELSE {})
Forest(fs, ts, args, d, mn, mx) ==
  IF args = <<>> THEN {<<>>}
  ELSE {a \o b : a \in Legal(fs, ts, Head(args), d, mn, mx), b \in Forest(fs, ts, Tail(args), d, mn, mx)}
Makes(how, fs, ts, root, mn, mx) == Legal(fs, ts, root, 0, IF how = "full" THEN mx ELSE mn, mx)

\* positions whose subtree may be taken: all of them, in typed trees all but the whole tree
Places(t, typed) == IF typed THEN 2..Len(t) ELSE DOMAIN t
Mutants(fs, ts, t, typed, mn, mx) ==
  UNION {{Splice(t, p, s) : s \in Legal(fs, ts, t[p].ret, 0, mn, mx)} : p \in Places(t, typed)}
\* crossing any number of trees: tree i+1 receives tree i's subtree
Picks(ts, typed) == {ps \in [DOMAIN ts -> UNION {DOMAIN ts[i] : i \in DOMAIN ts}] :
                       /\ \A i \in DOMAIN ts : ps[i] \in Places(ts[i], typed)
                       /\ (typed => \A i \in DOMAIN ts : ts[i][ps[i]].ret = ts[1][ps[1]].ret)}
Crossed(ts, ps) == [i \in DOMAIN ts |-> LET j == IF i = 1 THEN Len(ts) ELSE i - 1
                                        IN Splice(ts[i], ps[i], Sub(ts[j], ps[j]))]
Crosses(ts, typed) == {Crossed(ts, ps) : ps \in Picks(ts, typed)}

(***************************************************************************)
(* The model: Tree's construction step by step, either free (everything it  *)
(* makes is Legal) or following a chosen goal (every Legal tree can be made).*)
VARIABLES goal, hit
cvars == <<vars, goal, hit>>
NodesOf(t) == [i \in DOMAIN t |-> [s |-> t[i].s, args |-> t[i].args, ret |-> t[i].ret]]
AllLegal == Legal(Funs, Terms, Root, 0, MinD, MaxD)
CInit == Init /\ goal \in AllLegal \cup {<<>>} /\ hit = TRUE
May(n) == /\ n \in (IF MayFun(todo[1].d) THEN Funs ELSE {}) \cup (IF MayTerm(todo[1].d) THEN Terms ELSE {})
          /\ n.ret = todo[1].ty
          /\ (Bug = "never_prunes" /\ Leaf(n) => todo[1].d = MaxD)
CPlace == /\ todo # <<>> /\ hit
          /\ \E n \in Funs \cup Terms :
               /\ IF goal = <<>> THEN May(n) /\ hit' = TRUE ELSE n = goal[Len(trees[1]) + 1] /\ hit' = May(n)
               /\ trees' = [trees EXCEPT ![1] = Append(@, [s |-> n.s, args |-> n.args, ret |-> n.ret, u |-> uid])]
               /\ todo' = [j \in 1..Len(n.args) |-> [ty |-> n.args[j], d |-> todo[1].d + 1]] \o Tail(todo)
          /\ uid' = uid + 1 /\ UNCHANGED <<ops, last, goal>>
CSpec == CInit /\ [][CPlace]_cvars
\* free construction makes legal trees only; a legal tree is never refused a node
OnlyLegal == goal = <<>> /\ todo = <<>> => NodesOf(trees[1]) \in AllLegal
AllPossible == hit
LegalIsRule == \A t \in AllLegal : WF(t) /\ Typed(t, Root) /\ GrowRule(t, MinD, MaxD)
\* mutants and crossings are well-formed and typed
MutantsOk == todo = <<>> /\ Len(trees[1]) < 6 =>
               \A u \in Mutants(Funs, Terms, trees[1], TRUE, 0, 0) : WF(NodesOf(u)) /\ Typed(NodesOf(u), Root)
CrossesOk == todo = <<>> /\ goal # <<>> /\ Len(goal) < 6 =>
               \A c \in Crosses(<<goal, NodesOf(trees[1]), goal>>, TRUE) : \A i \in 1..3 : WF(c[i]) /\ Typed(c[i], Root)
=============================================================================
