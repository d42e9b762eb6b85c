SPECIFICATION Spec
CONSTANTS
  NKeys = 2
  Elems = {0, 1}
  Closers = {1}
  Levels = {0, 1}
  SimDepth = 0
INVARIANTS TypeOK RoundTrip KeyAgrees EmitState
CHECK_DEADLOCK FALSE
