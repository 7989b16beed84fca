CONSTANTS
  Responses = {1, 2}
  Maps = {11, 12}
  MaxPut = 2
  CLEAR = FALSE
  FORGET = TRUE
SPECIFICATION Spec
INVARIANT OwnOnly
INVARIANT Owned
INVARIANT PoolClean
CHECK_DEADLOCK FALSE
