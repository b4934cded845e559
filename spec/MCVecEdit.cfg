SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1}
  MaxLen = 4
  MaxOps = 3
  Bug = "none"
INVARIANTS AsEdited Lengths Undo SameParts
CHECK_DEADLOCK FALSE
