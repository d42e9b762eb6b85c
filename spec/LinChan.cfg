SPECIFICATION Spec
CONSTANTS
  Diag = FALSE
INVARIANT Progress
CHECK_DEADLOCK FALSE
