SPECIFICATION Spec
CONSTANTS
  Elems = {0, 1, 2}
  Closers = {0}
  Levels = {0, 1}
  MaxLen = 3
  ReplLen = 2
  SimDepth = 0
INVARIANTS TypeOK Agree Frozen EmitState
CHECK_DEADLOCK FALSE
