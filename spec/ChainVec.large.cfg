SPECIFICATION SimSpec
CONSTANTS
  LVals = {0, 1, 2, 3}
  RVals = {5, 6, 7, 8}
  MaxLen = 24
  ReplLen = 20
  SimDepth = 50
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
