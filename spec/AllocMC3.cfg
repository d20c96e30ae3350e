INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  Prices = {1, 3, 10}
  Lots = {1, 2}
  Values = {16}
  Caps = {200, 1, 0}
  MaxN = 3
INVARIANTS CashNonNegative Conservation AtLeastFloor OvershootBelowOneLot NothingLeftToBuy Blocked Finite
