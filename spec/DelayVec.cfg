SPECIFICATION Spec
CONSTANTS
  Elems = {0, 1, 2}
  MaxTotal = 3
  ReplLen = 2
  SimDepth = 0
INVARIANTS TypeOK Mirrors Gone Settled EmitState
CHECK_DEADLOCK FALSE
