SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Keys = {"a", "b"}
  Lives = {0, 1}
  MaxNow = 1
  MaxOps = 4
  Locked = TRUE
INVARIANTS NoRace Linearizable
CHECK_DEADLOCK FALSE
