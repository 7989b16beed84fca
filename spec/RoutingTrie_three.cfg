SPECIFICATION Spec
CONSTANTS
  SegTexts = {"a", "{x}", "a*", "*", "**"}
  PathTexts = {"a", "ab"}
  MaxPat = 2
  MaxPath = 3
  MaxTable = 3
INVARIANTS SearchIsRight OrderFree SomeWinner BetterIsStrict
CHECK_DEADLOCK FALSE
