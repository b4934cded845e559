CONSTANTS
  Types <- TV
  MaxP = 3
  MaxC = 2
  MaxR = 2
  Bug = "none"
SPECIFICATION Spec
INVARIANTS Reflected RowWise
CHECK_DEADLOCK FALSE
