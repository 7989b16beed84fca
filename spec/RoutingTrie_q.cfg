SPECIFICATION Spec
CONSTANTS
  SegTexts = {"a", "{x}", "{y:^[0-9]+$}", "a*", "*b", "*", "**"}
  PathTexts = {"a", "1", "ab"}
  MaxPat = 2
  MaxPath = 3
  MaxTable = 2
INVARIANTS SearchIsRight OrderFree SomeWinner BetterIsStrict
CHECK_DEADLOCK FALSE
