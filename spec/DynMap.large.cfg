SPECIFICATION SimSpec
CONSTANTS
  NKeys = 24
  Elems = {0, 1, 2, 3, 4, 5, 6, 7, 8}
  Closers = {}
  Levels = {0, 1, 2}
  SimDepth = 60
INVARIANTS EmitSim
CHECK_DEADLOCK FALSE
