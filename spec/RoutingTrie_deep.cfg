SPECIFICATION Spec
CONSTANTS
  SegTexts = {"a", "{x}", "*", "**"}
  PathTexts = {"a", "b"}
  MaxPat = 3
  MaxPath = 4
  MaxTable = 2
INVARIANTS SearchIsRight OrderFree SomeWinner BetterIsStrict
CHECK_DEADLOCK FALSE
