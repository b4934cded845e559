SPECIFICATION Spec
CONSTANTS
  Ests = {1, 2, 3}
  Data = {1, 2}
  Genomes = {1, 2, 3}
  Queries = {1, 2, 3}
  Out <- OutV
  Target <- TargetV
  Bug = "none"
INVARIANTS Answers Errors Alike
CHECK_DEADLOCK FALSE
