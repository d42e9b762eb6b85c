SPECIFICATION SimSpec
CONSTANTS
  Vals = {0, 1, 2}
  Obsrv = {0, 1, 2, 3, 4, 5}
  SimDepth = 60
INVARIANTS TypeOK Quiet EmitSim
CHECK_DEADLOCK FALSE
