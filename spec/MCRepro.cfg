SPECIFICATION Spec
CONSTANTS
  Seeds = {0, 6}
  Mod = 7
  N = 2
  MaxGen = 1
  Bug = "none"
INVARIANTS Reproducible
CHECK_DEADLOCK FALSE
