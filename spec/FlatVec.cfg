SPECIFICATION Spec
CONSTANTS
  Inners = {0, 1}
  Closers = {0}
  Tags = {0, 1}
  OuterMax = 2
  InnerMax = 2
  OuterRepl = 2
  InnerRepl = 1
  SimDepth = 0
INVARIANTS TypeOK Length Blocks EmitState
CHECK_DEADLOCK FALSE
