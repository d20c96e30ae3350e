INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  M = 3
  Lev = {0, 2}
  Alt <- AltT
  Targets = {0, 1, 2, 5}
  Depth = 2
INVARIANTS Same Always Refusal Duality MinRiskIsLowest EndsAreExtremes
PROPERTY Frozen
