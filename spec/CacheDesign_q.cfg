SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Keys = {"a"}
  Lives = {0, 1}
  MaxNow = 1
  MaxOps = 4
  Locked = TRUE
INVARIANTS NoRace Linearizable
CHECK_DEADLOCK FALSE
