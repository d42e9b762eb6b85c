SPECIFICATION SimSpec
CONSTANTS
  Kinds = {"vec", "map", "mut", "bc"}
  Subs = {0, 1, 2, 3, 4}
  MaxLen = 6
  MaxQ = 12
  Rounds = {100, 300}
  SimDepth = 50
INVARIANTS TypeOK Bounds Gone Settled EmitSim
CHECK_DEADLOCK FALSE
