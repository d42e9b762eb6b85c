SPECIFICATION SimSpec
CONSTANTS
  LVals = {0, 1, 2}
  RVals = {5, 6, 7}
  MaxLen = 4
  ReplLen = 3
  SimDepth = 40
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
