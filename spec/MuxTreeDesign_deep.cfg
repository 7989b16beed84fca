SPECIFICATION Spec
CONSTANTS
  Copy = TRUE
  MaxMuxes = 3
  MaxOps = 7
INVARIANT NoSideways
CHECK_DEADLOCK FALSE
