SPECIFICATION SimSpec
CONSTANTS
  NKeys = 520
  Vals = {0, 1, 2, 3, 4}
  Many = {5, 60}
  SimDepth = 14
INVARIANTS EmitSim
CHECK_DEADLOCK FALSE
