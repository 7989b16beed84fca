SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Ttl = 1
  MaxNow = 2
  MaxIssued = 3
  Locked = TRUE
INVARIANTS OnlyOnce OnlyIssued UsedIsDead
CHECK_DEADLOCK FALSE
