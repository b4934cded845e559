SPECIFICATION Spec
CONSTANTS
  N = 3
  W = 2
  Rounds = 1
  Bug = "none"
  Emit = TRUE
INVARIANTS OwnScore
CHECK_DEADLOCK FALSE
