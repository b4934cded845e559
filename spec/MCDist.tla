---- MODULE MCDist ----
EXTENDS Dist
FSV == {[s |-> "f", args |-> <<U, U>>, ret |-> U], [s |-> "g", args |-> <<U>>, ret |-> U]}
TSV == {[s |-> "x", args |-> <<>>, ret |-> U]}
====
