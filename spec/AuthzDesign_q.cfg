SPECIFICATION Spec
CONSTANTS
  Max = 3
  Perms = {a, b}
  CHECKED = TRUE
INVARIANT Closed
PROPERTY Final
CHECK_DEADLOCK FALSE
