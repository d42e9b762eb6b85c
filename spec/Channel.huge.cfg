SPECIFICATION SimSpec
CONSTANTS
  Vals = {1, 2, 3, 4, 5, 6, 7}
  Senders = {0, 1, 2, 3, 4, 5}
  Bursts = {65535, 65536, 65537}
  SimDepth = 24
INVARIANTS TypeOK UpToDate NoLostWake EndLast EmitSim
CHECK_DEADLOCK FALSE
