SPECIFICATION Spec
CONSTANTS
  BOUND = FALSE
  Prefixes = {"/app", "x/", ""}
  MaxMuxes = 2
  DataLen = 2
INVARIANTS Named Nowhere
CHECK_DEADLOCK FALSE
