SPECIFICATION SimSpec
CONSTANTS
  Inners = {0, 1, 2, 3}
  Vals = {0, 1, 2, 3}
  SimDepth = 50
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
