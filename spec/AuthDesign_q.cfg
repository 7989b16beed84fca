SPECIFICATION Spec
CONSTANTS
  Grants = {"a", "a/b", "*", "a/*", "*/b"}
  Asked = {"a", "a/b", "a/b/c", "c/b"}
  Bits = {1, 2}
  MaxPerms = 3
  NRoles = 2
INVARIANTS PartsHeld OnlyGranted DeniedWins
PROPERTY Monotone
CHECK_DEADLOCK FALSE
