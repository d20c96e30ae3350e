INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  T = 3
  Outcomes = {0, 1, 3}
  Den = 4
  Tails = {1, 2, 3, 6}
INVARIANTS SweepIsQuantile SweepIsShortfall TailBeatsVar TailBeatsMean IsMinimum DropEmpty Merge
