SPECIFICATION Spec
CONSTANTS
  Vals = {0, 1}
  Obsrv = {0, 1, 2}
  MaxH = 2
  Bursts = {256}
  Crowds = {40}
  SimDepth = 0
INVARIANTS TypeOK EndOnlyClosed UpToDate EmitState
CHECK_DEADLOCK FALSE
