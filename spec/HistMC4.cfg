INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 4
INVARIANTS OwnKept Functional FrontsKept
