SPECIFICATION Spec
CONSTANTS
  Vals = {1, 2}
  MaxA = 1
  BVals = {1}
  MaxB = 1
  NG = 1
  NKeys = 1
  MaxPipe = 2
  ManyPipes = 1
  Closing = FALSE
  SimDepth = 0
INVARIANTS TypeOK EndLaw Quiet EmitState
CHECK_DEADLOCK FALSE
