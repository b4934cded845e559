---- MODULE MCVecEdit ----
EXTENDS VecEdit
====
