SPECIFICATION Spec
CONSTANTS
  Comps <- Mild
  Sizes = {1, 2, 3, 4, 6, 12}
  Emit = FALSE
  Bug = "none"
INVARIANTS Sound Complete
PROPERTY Decides
CHECK_DEADLOCK FALSE
