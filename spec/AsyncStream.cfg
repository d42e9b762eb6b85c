SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1}
  MaxQ = 3
  SimDepth = 0
INVARIANTS TypeOK Lossless EmitState
CHECK_DEADLOCK FALSE
