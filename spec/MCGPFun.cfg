SPECIFICATION Spec
CONSTANTS
  D <- DV
  Bug = "none"
INVARIANTS Laws
CHECK_DEADLOCK FALSE
