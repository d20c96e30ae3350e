INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxFronts = 3
  MarkSets = {1, 2, 3, 4, 5}
  Rfs = {0, 1, 9}
INVARIANTS OneLineEach LineBeforeMark Extreme NoneLost
PROPERTIES Frozen OnlyAdds
