SPECIFICATION Spec
CONSTANTS
  Inners = {0, 1}
  Vals = {0, 1}
  SimDepth = 0
INVARIANTS TypeOK Quiet Fresh Isolated EmitState
CHECK_DEADLOCK FALSE
