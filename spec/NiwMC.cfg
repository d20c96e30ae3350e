INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  D = 2
  Pts = {0, 2}
  Counts = {1, 3}
  MaxObs = 3
INVARIANTS Batch TwoBatches Symm Def CountsGrow Between
