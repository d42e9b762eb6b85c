SPECIFICATION SimSpec
CONSTANTS
  NKeys = 6
  Vals = {0, 1, 2}
  Many = {3, 40, 300}
  SimDepth = 40
INVARIANTS EmitSim
CHECK_DEADLOCK FALSE
