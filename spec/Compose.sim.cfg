SPECIFICATION SimSpec
CONSTANTS
  Vals = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
  MaxA = 5
  BVals = {0, 1, 2, 4}
  MaxB = 3
  NG = 4
  NKeys = 4
  MaxPipe = 0
  ManyPipes = 5
  Closing = TRUE
  SimDepth = 36
INVARIANTS TypeOK EndLaw EmitSim
CHECK_DEADLOCK FALSE
