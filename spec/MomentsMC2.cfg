INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxT = 4
  Values = {1, 5}
  Span = 4
INVARIANTS Running Recursive Definite Linear ScaleFree TwoAssets MeanShrink Repairs Robust Threshold
