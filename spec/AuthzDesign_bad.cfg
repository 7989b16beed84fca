SPECIFICATION Spec
CONSTANTS
  Max = 3
  Perms = {a, b}
  CHECKED = FALSE
INVARIANT Closed
PROPERTY Final
CHECK_DEADLOCK FALSE
