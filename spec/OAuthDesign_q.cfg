SPECIFICATION Spec
CONSTANTS
  N = 4
  Ttl = 2
  CheckState = TRUE
INVARIANTS OnlyIssuedStates OnlyConfigured
CHECK_DEADLOCK FALSE
