INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  S = 3
  Den = 4
  MaxViews = 2
  TDen = 4
INVARIANTS IsDist Meets Stable Closest Certified
