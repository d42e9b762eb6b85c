SPECIFICATION SimSpec
CONSTANTS
  Elems = {0, 1, 2, 3, 4, 5, 6, 7}
  Closers = {}
  Levels = {0, 1, 2, 3}
  MaxLen = 30
  ReplLen = 24
  SimDepth = 50
INVARIANTS TypeOK Agree EmitSim
CHECK_DEADLOCK FALSE
