CONSTANTS
  P = "github"
  Strict = TRUE
SPECIFICATION Spec
INVARIANT NotForged
CHECK_DEADLOCK FALSE
