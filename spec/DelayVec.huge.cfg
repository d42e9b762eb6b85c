SPECIFICATION SimSpec
CONSTANTS
  Elems = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
  MaxTotal = 560
  ReplLen = 270
  SimDepth = 14
INVARIANTS TypeOK Gone Settled EmitSim
CHECK_DEADLOCK FALSE
