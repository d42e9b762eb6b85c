SPECIFICATION SimSpec
CONSTANTS
  Inners = {0, 1, 2, 3, 4, 5}
  Closers = {}
  Tags = {0, 1, 2, 3}
  OuterMax = 12
  InnerMax = 8
  OuterRepl = 10
  InnerRepl = 6
  SimDepth = 50
INVARIANTS TypeOK EmitSim
CHECK_DEADLOCK FALSE
