INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxT = 3
  Values = {0, 2, 5}
  Span = 4
INVARIANTS Running Recursive Definite Linear ScaleFree TwoAssets MeanShrink Repairs Robust Threshold
