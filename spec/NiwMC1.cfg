INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  D = 1
  Pts = {0, 1, 4}
  Counts = {1, 2, 5}
  MaxObs = 4
INVARIANTS Batch TwoBatches Symm Def CountsGrow Between
