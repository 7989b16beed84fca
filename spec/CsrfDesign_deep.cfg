SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Ttl = 2
  MaxNow = 3
  MaxIssued = 4
  Locked = TRUE
INVARIANTS OnlyOnce OnlyIssued UsedIsDead
CHECK_DEADLOCK FALSE
