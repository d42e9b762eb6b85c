SPECIFICATION Spec
CONSTANTS
  Vals = {1, 2}
  MaxA = 2
  BVals = {1}
  MaxB = 1
  NG = 1
  NKeys = 1
  MaxPipe = 1
  ManyPipes = 1
  Closing = TRUE
  SimDepth = 0
INVARIANTS TypeOK EndLaw Quiet EmitState
CHECK_DEADLOCK FALSE
