SPECIFICATION Spec
CONSTANTS
  BOUND = TRUE
  Prefixes = {"/app", "x/", ""}
  MaxMuxes = 4
  DataLen = 2
INVARIANTS Named Nowhere
CHECK_DEADLOCK FALSE
