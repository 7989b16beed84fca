SPECIFICATION Spec
CONSTANTS
  Copy = TRUE
  MaxMuxes = 3
  MaxOps = 6
INVARIANT NoSideways
CHECK_DEADLOCK FALSE
