SPECIFICATION SimSpec
CONSTANTS
  N = 4
  Vals = {0, 1, 2, 3, 4, 5}
  Closes = {{1}, {2}, {3}, {4}, {1, 2, 3}, {3, 4}}
  SimDepth = 60
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
