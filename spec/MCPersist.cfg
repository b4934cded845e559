SPECIFICATION Spec
CONSTANTS
  Algs = {1, 2, 3}
  Seeds = {0, 1, 2}
  N = 2
  MaxGen = 2
  M = 7
  MaxCopies = 2
  Bug = "none"
INVARIANTS Faithful Apart Able
PROPERTY SameShape
CHECK_DEADLOCK FALSE
