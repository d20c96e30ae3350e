INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLen = 3
INVARIANTS OwnKept Functional FrontsKept
