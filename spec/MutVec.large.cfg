SPECIFICATION SimSpec
CONSTANTS
  Vals = {0, 1, 2, 3, 4, 5}
  MaxLen = 40
  ReplLen = 30
  Many = {5, 60}
  SimDepth = 50
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
