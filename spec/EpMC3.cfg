INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  S = 3
  Den = 6
  MaxViews = 1
  TDen = 4
INVARIANTS IsDist Meets Stable Closest Certified GapSound
