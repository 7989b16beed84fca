CONSTANTS
  Max = 5
  DECIDE = "one"
  FINISH = FALSE
SPECIFICATION Spec
INVARIANT Complete
INVARIANT Declared
PROPERTY Prompt
CHECK_DEADLOCK FALSE
