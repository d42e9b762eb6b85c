SPECIFICATION SimSpec
CONSTANTS
  Vals = {1, 2, 3, 4, 5, 6, 7}
  Senders = {0, 1, 2, 3, 4, 5}
  Bursts = {2, 3, 127, 255, 256, 257, 300}
  SimDepth = 50
INVARIANTS TypeOK UpToDate NoLostWake EndLast EmitSim
CHECK_DEADLOCK FALSE
