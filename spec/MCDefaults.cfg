CONSTANTS
  Table <- TV
  Others <- OV
  Objects <- JV
  MaxInst = 2
  MaxUse = 3
  Bug = "none"
SPECIFICATION Spec
INVARIANTS Same Right
CHECK_DEADLOCK FALSE
