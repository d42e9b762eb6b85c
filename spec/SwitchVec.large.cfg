SPECIFICATION SimSpec
CONSTANTS
  Inners = {0, 1, 2, 3, 4, 5}
  Closers = {}
  Tags = {0, 1, 2, 3}
  InnerMax = 16
  InnerRepl = 12
  SimDepth = 50
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
