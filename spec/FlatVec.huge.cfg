SPECIFICATION SimSpec
CONSTANTS
  Inners = {0, 1, 2}
  Closers = {}
  Tags = {0, 1, 2, 3}
  OuterMax = 4
  InnerMax = 300
  OuterRepl = 3
  InnerRepl = 270
  SimDepth = 18
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
