SPECIFICATION Spec
CONSTANTS
  Comps <- All
  Sizes = {1, 2, 3, 4, 6, 12}
  Emit = TRUE
  Bug = "none"
CHECK_DEADLOCK FALSE
