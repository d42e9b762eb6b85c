SPECIFICATION SimSpec
CONSTANTS
  Vals = {0, 1, 2, 3, 4, 5}
  Obsrv = {0, 1, 2, 3, 4}
  MaxH = 4
  Bursts = {1, 3, 255, 256, 257}
  Crowds = {3, 9, 17, 70}
  SimDepth = 60
INVARIANTS TypeOK EndOnlyClosed UpToDate EmitSim
CHECK_DEADLOCK FALSE
