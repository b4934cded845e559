SPECIFICATION Spec
CONSTANTS
  Vals <- V3
  K = 2
  MaxGen = 6
  Opt = 0
  Thr = 0
  Bug = "none"
INVARIANTS StopsAtFirst NotEarlier EveryoneAsked HaltsOnlyForAReason
CHECK_DEADLOCK FALSE
