SPECIFICATION Spec
CONSTANTS
  S = 2
  N <- NV
  E <- EV
  Hib <- HV
  Fit = {0, 1}
  Bug = "none"
INVARIANTS TypeOK SizesKept NoMigration OwnOperators Waits OwnElites
PROPERTY AllBred
CHECK_DEADLOCK FALSE
