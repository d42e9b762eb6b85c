SPECIFICATION SimSpec
CONSTANTS
  Vals = {0, 1, 2, 3, 4, 5}
  Obsrv = {0, 1, 2, 3, 4}
  MaxH = 4
  Bursts = {65535, 65536, 65537}
  Crowds = {2}
  SimDepth = 24
INVARIANTS TypeOK EndOnlyClosed UpToDate EmitSim
CHECK_DEADLOCK FALSE
