SPECIFICATION Spec
CONSTANTS
  Slots = {1, 2, 3}
  Vals = {0, 1}
  Genomes = {0, 1}
  MaxSteps = 4
  Bug = "none"
INVARIANTS Isolation DistinctIds
CHECK_DEADLOCK FALSE
