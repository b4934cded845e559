---- MODULE MCVector ----
EXTENDS Vector
LoV == <<0, 0, 1>>
HiV == <<1, 1, 2>>
LoW == <<0, 0, 1, -1>>
HiW == <<1, 1, 1, 0>>
====
