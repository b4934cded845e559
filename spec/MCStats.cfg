SPECIFICATION Spec
CONSTANTS
  Members <- M0
  N = 3
  Hib = TRUE
  W = 3
  Bug = "none"
INVARIANTS Told Unchanged Mirror
CHECK_DEADLOCK FALSE
