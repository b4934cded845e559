---- MODULE MCDefaults ----
EXTENDS Defaults
TV == [a |-> [p |-> "1", fit |-> "own"], b |-> [n |-> "5"]]
OV == [a |-> [p |-> "2", fit |-> "given"], b |-> [n |-> "6"]]
JV == {<<"a", "fit">>}
====
