INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRows = 3
INVARIANTS OneRowPerPair ForwardFill BackFill NoGapNoFill Compounds DropsOnlyGaps Distribution
