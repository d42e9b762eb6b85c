SPECIFICATION SimSpec
CONSTANTS
  Elems = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
  MaxTotal = 26
  ReplLen = 16
  SimDepth = 50
INVARIANTS TypeOK Gone Settled EmitSim
CHECK_DEADLOCK FALSE
