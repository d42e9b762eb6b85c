SPECIFICATION SimSpec
CONSTANTS
  Elems = {0, 1, 2, 3, 4, 5, 6, 7}
  Closers = {}
  Levels = {0, 1, 2, 3}
  MaxLen = 300
  ReplLen = 270
  SimDepth = 14
INVARIANTS TypeOK Agree EmitSim
CHECK_DEADLOCK FALSE
