SPECIFICATION Spec
CONSTANTS
  LVals = {0, 1}
  RVals = {2, 3}
  MaxLen = 2
  ReplLen = 2
  SimDepth = 0
INVARIANTS TypeOK Local EmitState
CHECK_DEADLOCK FALSE
