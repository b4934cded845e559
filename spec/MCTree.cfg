SPECIFICATION Spec
CONSTANTS
  Funs <- FunsV
  Terms <- TermsV
  Root = "A"
  MinD = 1
  MaxD = 2
  NTrees = 2
  MaxOps = 2
  Bug = "none"
INVARIANTS WellFormed WellTyped Terms1 Grown NoSharing Recognised Conserved MutRecognised
CHECK_DEADLOCK FALSE
