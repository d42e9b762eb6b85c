SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1, 2}
  MaxLen = 3
  ReplLen = 2
  Many = {40}
  SimDepth = 0
INVARIANTS TypeOK SilentKeeps Swaps Reverses Conserve EmitState
CHECK_DEADLOCK FALSE
