INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Rows = {1, 2, 3}
  Depth = 3
INVARIANTS MeanMoves SpreadStays TailMoves TailOrder EntropyOk EnsRange Diversify
