SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 2}
  SimDepth = 0
INVARIANTS TypeOK Quiet Ends EmitState
CHECK_DEADLOCK FALSE
