SPECIFICATION Spec
CONSTANTS
  Inners = {0, 1, 2}
  Closers = {1, 2}
  Tags = {0, 1}
  InnerMax = 1
  InnerRepl = 1
  SimDepth = 0
INVARIANTS TypeOK Hidden EmitState
CHECK_DEADLOCK FALSE
