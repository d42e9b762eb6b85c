SPECIFICATION SimSpec
CONSTANTS
  LVals = {0, 1, 2, 3}
  RVals = {5, 6, 7, 8}
  MaxLen = 300
  ReplLen = 270
  SimDepth = 14
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
