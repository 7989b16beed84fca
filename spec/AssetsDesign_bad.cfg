CONSTANTS
  MaxLen = 6
  CLEAN = FALSE
SPECIFICATION Spec
INVARIANT Inside
INVARIANT Exact
CHECK_DEADLOCK FALSE
