SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 2}
  Obsrv = {0, 1, 2}
  SimDepth = 0
INVARIANTS TypeOK Quiet WakeLaw EmitState
CHECK_DEADLOCK FALSE
