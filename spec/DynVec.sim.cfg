SPECIFICATION SimSpec
CONSTANTS
  Elems = {0, 1, 2, 3}
  Closers = {}
  Levels = {0, 1, 2, 3}
  MaxLen = 7
  ReplLen = 4
  SimDepth = 40
INVARIANTS TypeOK Agree EmitSim
CHECK_DEADLOCK FALSE
