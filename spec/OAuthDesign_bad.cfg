SPECIFICATION Spec
CONSTANTS
  N = 4
  Ttl = 2
  CheckState = FALSE
INVARIANTS OnlyIssuedStates OnlyConfigured
CHECK_DEADLOCK FALSE
