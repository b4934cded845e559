---- MODULE MCEvalPool ----
EXTENDS EvalPool
====
