INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Ns = {2}
INVARIANTS Emit RowsAreTheRegion
PROPERTY OnlyShrinks
