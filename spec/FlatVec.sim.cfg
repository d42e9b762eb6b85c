SPECIFICATION SimSpec
CONSTANTS
  Inners = {0, 1, 2, 3}
  Closers = {}
  Tags = {0, 1, 2}
  OuterMax = 4
  InnerMax = 3
  OuterRepl = 3
  InnerRepl = 3
  SimDepth = 50
INVARIANTS TypeOK Length EmitSim
CHECK_DEADLOCK FALSE
