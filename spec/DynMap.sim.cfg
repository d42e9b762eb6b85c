SPECIFICATION SimSpec
CONSTANTS
  NKeys = 5
  Elems = {0, 1, 2, 3}
  Closers = {}
  Levels = {0, 1, 2}
  SimDepth = 40
INVARIANTS EmitSim
CHECK_DEADLOCK FALSE
