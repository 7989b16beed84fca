CONSTANTS
  P = "google"
  Strict = FALSE
SPECIFICATION Spec
INVARIANT NotForged
CHECK_DEADLOCK FALSE
