SPECIFICATION Spec
CONSTANTS
  Copy = FALSE
  MaxMuxes = 3
  MaxOps = 6
INVARIANT NoSideways
CHECK_DEADLOCK FALSE
