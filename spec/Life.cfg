SPECIFICATION Spec
CONSTANTS
  Kinds = {"vec", "map", "mut", "bc"}
  Subs = {0, 1}
  MaxLen = 2
  MaxQ = 4
  Rounds = {200}
  SimDepth = 0
INVARIANTS TypeOK Bounds Gone Settled EmitState
CHECK_DEADLOCK FALSE
