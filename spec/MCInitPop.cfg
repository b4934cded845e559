SPECIFICATION Spec
CONSTANTS
  NC = 3
  Weights <- W3
  N = 3
  Supplied = 0
  Bug = "none"
INVARIANTS Ready
CHECK_DEADLOCK FALSE
