CONSTANTS
  Max = 5
  DECIDE = "always"
  FINISH = TRUE
SPECIFICATION Spec
INVARIANT Complete
INVARIANT Declared
PROPERTY Prompt
CHECK_DEADLOCK FALSE
