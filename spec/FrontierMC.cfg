INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  M = 3
  Lev = {0, 1, 3}
  Alt <- AltQ
  Targets = {0, 1, 2, 5}
  Depth = 1
INVARIANTS Same Always Refusal Duality MinRiskIsLowest EndsAreExtremes
PROPERTY Frozen
