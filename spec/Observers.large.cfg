SPECIFICATION SimSpec
CONSTANTS
  Vals = {0, 1, 2}
  Obsrv = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}
  MaxH = 12
  Bursts = {1, 3, 255, 256, 257}
  Crowds = {3, 9, 17, 70}
  SimDepth = 100
INVARIANTS TypeOK EndOnlyClosed UpToDate EmitSim
CHECK_DEADLOCK FALSE
