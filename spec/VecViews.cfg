SPECIFICATION Spec
CONSTANTS
  Keys = {0, 1}
  MaxLen = 3
  ReplLen = 2
  SimDepth = 0
INVARIANTS TypeOK Laws DiffLaws MoveLaw EmitState
CHECK_DEADLOCK FALSE
