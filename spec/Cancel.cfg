SPECIFICATION Spec
CONSTANTS
  SimDepth = 0
INVARIANTS TypeOK UpToDate NoLostWake Once OneOutput EmitState
CHECK_DEADLOCK FALSE
