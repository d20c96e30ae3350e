INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Markets = {1, 2, 3}
  Steps = 2
INVARIANTS InReach Jumps PeakOk DownOk Grows RoundTrip Compounds MomentTrip
