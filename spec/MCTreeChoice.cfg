CONSTANTS
  Funs <- FunsV
  Terms <- TermsV
  Root = "A"
  MinD = 1
  MaxD = 3
  NTrees = 1
  MaxOps = 0
  Bug = "none"
SPECIFICATION CSpec
INVARIANTS OnlyLegal AllPossible LegalIsRule MutantsOk CrossesOk
CHECK_DEADLOCK FALSE
