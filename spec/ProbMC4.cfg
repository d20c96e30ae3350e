INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
  Levels = {0, 1, 2, 5, 8, 9}
INVARIANTS ProperOnce ScaleFree Bounds SplitIncreases DivergenceIsPositive EnsByDivergence
