---- MODULE MCTreeChoice ----
EXTENDS TreeChoice
A == "A"
B == "B"
FunsV == {[s |-> "f", args |-> <<A, B>>, ret |-> A], [s |-> "g", args |-> <<A>>, ret |-> B]}
TermsV == {[s |-> "a", args |-> <<>>, ret |-> A], [s |-> "b", args |-> <<>>, ret |-> B]}
FunsU == {[s |-> "f", args |-> <<A, A>>, ret |-> A], [s |-> "g", args |-> <<A>>, ret |-> A]}
TermsU == {[s |-> "a", args |-> <<>>, ret |-> A], [s |-> "b", args |-> <<>>, ret |-> A]}
====
