---- MODULE MCMultiPop ----
EXTENDS MultiPop
NV == <<3, 2>>
EV == <<2, 1>>
HV == <<TRUE, FALSE>>
NW == <<2, 2, 2>>
EW == <<1, 0, 2>>
HW == <<TRUE, FALSE, FALSE>>
====
