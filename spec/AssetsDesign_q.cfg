CONSTANTS
  MaxLen = 6
  CLEAN = TRUE
SPECIFICATION Spec
INVARIANT Inside
INVARIANT Exact
CHECK_DEADLOCK FALSE
