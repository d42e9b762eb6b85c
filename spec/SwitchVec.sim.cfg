SPECIFICATION SimSpec
CONSTANTS
  Inners = {0, 1, 2}
  Closers = {}
  Tags = {0, 1, 2}
  InnerMax = 4
  InnerRepl = 3
  SimDepth = 50
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
