CONSTANTS
  Requests = {1, 2, 3}
  EAGER = FALSE
SPECIFICATION Spec
INVARIANT Whole
PROPERTY Quiet
PROPERTY Answered
CHECK_DEADLOCK FALSE
