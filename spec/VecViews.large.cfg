SPECIFICATION SimSpec
CONSTANTS
  Keys = {0, 1, 2, 3, 4}
  MaxLen = 60
  ReplLen = 50
  SimDepth = 40
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
