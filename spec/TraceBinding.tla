---- MODULE TraceBinding ----
(* What the real code makes of functions' declarations and of tables.        *)
EXTENDS TraceBase
V == INSTANCE Binding WITH Types <- {}, MaxP <- 0, MaxC <- 0, MaxR <- 0, Bug <- "none", phase <- 0, fun <- 0, hints <- 0, slots <- 0, table <- 0, want <- 0, res <- 0
VARIABLES l
\* nodes: kind, what (number of the function or value), type; equal exactly when all agree
SameNode(a, b) == a = b
Check(e) ==
  CASE e.op = "Func" ->
         CI("C36.types", V!Accepted(e.f), e.types = V!SlotTypes(e.f)) \cup
         C("C36.arity", e.arity = Len(e.f.params)) \cup C("C36.return", e.ret = e.f.ret) \cup
         C("C36.node", IF V!Accepted(e.f) THEN e.node = <<e.f.ret, Len(e.f.params)>> ELSE e.refused)
    [] e.op = "Names" -> C("C36.names", e.out = V!Names(e.m)) \cup CI("C36.coltypes", e.typed, e.types = e.coltypes)
    [] e.op = "Args" -> C("C36.args", e.names = V!Names(e.m) /\ Len(e.cols) = e.m /\ \A i \in 1..e.m : e.cols[i] = V!Column(e.table, i)) \cup
                        C("C36.input", e.unchanged)
    [] e.op = "Row" -> C("C36.rows", Len(e.res) = Len(e.table) /\ \A r \in DOMAIN e.table : e.res[r] = [i \in DOMAIN e.want |-> e.table[r][e.want[i]]])
    [] e.op = "Nodes" -> C("C36.equal", e.eq = SameNode(e.a, e.b) /\ e.ne = ~e.eq)
    [] e.op = "Exc" -> {"X.exc"}
    [] OTHER -> {"X.unknown"}
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ Report(l, Check(Trace[l]))
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
====
