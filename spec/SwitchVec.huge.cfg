SPECIFICATION SimSpec
CONSTANTS
  Inners = {0, 1}
  Closers = {}
  Tags = {0, 1, 2, 3}
  InnerMax = 300
  InnerRepl = 270
  SimDepth = 18
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
