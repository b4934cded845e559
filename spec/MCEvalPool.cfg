SPECIFICATION Spec
CONSTANTS
  N = 3
  W = 2
  Rounds = 2
  Bug = "none"
  Emit = FALSE
INVARIANTS OwnScore AllScored Once Raises RaisesReal
PROPERTY Answers
CHECK_DEADLOCK FALSE
