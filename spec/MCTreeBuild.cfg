SPECIFICATION BSpec
CONSTANTS
  Funs <- FunsV
  Terms <- TermsV
  Root = "A"
  MinD = 0
  MaxD = 9
  NTrees = 1
  MaxOps = 9
  Bug = "none"
INVARIANTS WalkIsOpen Prefixes CompleteIff TextReadsBack
CHECK_DEADLOCK FALSE
