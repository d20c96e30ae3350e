INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Prices = {1, 3, 10, 20}
  Lots = {1, 2}
  Values = {16, 32}
  Caps = {200, 1, 0}
  MaxN = 2
INVARIANTS CashNonNegative Conservation AtLeastFloor OvershootBelowOneLot NothingLeftToBuy Blocked Finite
