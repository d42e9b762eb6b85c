SPECIFICATION SimSpec
CONSTANTS
  Elems = {0, 1, 2, 3, 4, 5}
  MaxTotal = 7
  ReplLen = 3
  SimDepth = 40
INVARIANTS TypeOK Gone Settled EmitSim
CHECK_DEADLOCK FALSE
