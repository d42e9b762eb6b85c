SPECIFICATION Spec
CONSTANTS
  N = 4
  Vals = {0, 1}
  Closes = {{1}, {2, 3, 4}}
  SimDepth = 0
INVARIANTS TypeOK Quiet Agree EmitState
CHECK_DEADLOCK FALSE
