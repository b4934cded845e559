---- MODULE MCReuse ----
EXTENDS Reuse
CV == 1..2
IV == 1..3
DV == 1..2
KV == <<1, 1>>
CW == 1..3
KW == <<1, 1, 2>>
====
