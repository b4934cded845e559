SPECIFICATION Spec
CONSTANTS
  Events = {"a", "b"}
  Actions <- A
  MaxDepth = 3
  MaxSteps = 4
  MaxH = 4
  Bug = "none"
INVARIANTS Delivered InOrder
PROPERTIES Quiesces
CHECK_DEADLOCK FALSE
