SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 2}
  K = 2
  M = 4
  N = 3
  Dir <- DirV
  Bug = "none"
INVARIANTS Survivors RankTrue NoBetterDiscarded Order
CHECK_DEADLOCK FALSE
