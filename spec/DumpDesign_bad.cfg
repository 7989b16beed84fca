CONSTANTS
  Requests = {1, 2, 3}
  SNAPSHOT = FALSE
SPECIFICATION Spec
INVARIANT Transparent
INVARIANT Noted
CHECK_DEADLOCK FALSE
