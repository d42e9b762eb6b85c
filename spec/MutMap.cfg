SPECIFICATION Spec
CONSTANTS
  NKeys = 3
  Vals = {0, 1}
  Many = {40}
  SimDepth = 0
INVARIANTS TypeOK RoundTrip Ascending SilentKeeps InsertRemove EmitState
CHECK_DEADLOCK FALSE
