SPECIFICATION SimSpec
CONSTANTS
  Vals = {0, 1, 2, 3}
  MaxLen = 7
  ReplLen = 3
  Many = {3, 40, 300}
  SimDepth = 40
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
