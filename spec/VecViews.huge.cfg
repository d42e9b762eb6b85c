SPECIFICATION SimSpec
CONSTANTS
  Keys = {0, 1, 2, 3, 4}
  MaxLen = 300
  ReplLen = 270
  SimDepth = 14
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
