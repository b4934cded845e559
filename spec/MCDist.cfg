CONSTANTS
  Kind = "sample"
  N = 5
  K = 3
  A = 1
  B = 4
  FS <- FSV
  TS <- TSV
  Mn = 0
  Mx = 2
  Bug = "none"
SPECIFICATION Spec
INVARIANTS SampleUniform FlipsRight GrowRight GrowAll
CHECK_DEADLOCK FALSE
