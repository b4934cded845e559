SPECIFICATION Spec
CONSTANTS
  N = 3
  Lo <- LoV
  Hi <- HiV
  MaxN = 2
  MaxAtt = 2
  Bug = "none"
INVARIANTS TypeOK KeepsLength KeepsBounds FitsIsOk XOExact MutLocal FlipExact FailedAttemptLeavesNoTrace
CHECK_DEADLOCK FALSE
