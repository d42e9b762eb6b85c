SPECIFICATION SimSpec
CONSTANTS
  Keys = {0, 1, 2, 3}
  MaxLen = 8
  ReplLen = 3
  SimDepth = 40
INVARIANTS TypeOK Laws EmitSim
CHECK_DEADLOCK FALSE
