SPECIFICATION Spec
CONSTANTS
  Vals = {1, 2}
  Senders = {0, 1, 2}
  Bursts = {256}
  SimDepth = 0
INVARIANTS TypeOK UpToDate NoLostWake EndLast Closed Newest EmitState
CHECK_DEADLOCK FALSE
