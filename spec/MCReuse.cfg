CONSTANTS
  Comps <- CV
  Ins <- IV
  Draws <- DV
  Conf <- KV
  MaxUse = 4
  Bug = "none"
SPECIFICATION Spec
INVARIANTS TypeOK AsNew Agreed
CHECK_DEADLOCK FALSE
