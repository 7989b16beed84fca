CONSTANTS
  Max = 4
  Cap = 2
  WATCH = FALSE
  RECHECK = TRUE
SPECIFICATION Spec
INVARIANT InOrder
INVARIANT NothingLate
INVARIANT AllDelivered
PROPERTY Prompt
PROPERTY EndsWithRequest
PROPERTY EndsWithGenerator
CHECK_DEADLOCK FALSE
