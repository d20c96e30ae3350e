INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxFronts = 2
  MarkSets = {2, 4, 5}
  Rfs = {0, 1, 9}
INVARIANTS OneLineEach LineBeforeMark Extreme NoneLost
PROPERTIES Frozen OnlyAdds
