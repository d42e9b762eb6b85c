SPECIFICATION SimSpec
CONSTANTS
  Vals = {0, 1, 2, 3, 4, 5, 6}
  SimDepth = 50
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
