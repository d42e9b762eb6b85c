SPECIFICATION SimSpec
CONSTANTS
  Vals = {0, 1, 2, 3, 4, 5}
  MaxLen = 300
  ReplLen = 270
  Many = {5, 60}
  SimDepth = 20
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
