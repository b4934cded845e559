SPECIFICATION Spec
CONSTANTS
  M = 3
  F <- FV
  TMax = 3
  Bug = "none"
INVARIANTS WinnerIsBest NotAmongWorst CountingRight
CHECK_DEADLOCK FALSE
