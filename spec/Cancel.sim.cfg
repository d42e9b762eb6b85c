SPECIFICATION SimSpec
CONSTANTS
  SimDepth = 30
INVARIANTS TypeOK UpToDate NoLostWake Once OneOutput EmitSim
CHECK_DEADLOCK FALSE
