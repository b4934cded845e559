CONSTANTS
  MaxGen = 3
  Scores = {1, 2, 3}
  Bug = "none"
SPECIFICATION Spec
INVARIANTS TypeOK Reaches Best Gen Final Intact
CHECK_DEADLOCK FALSE
