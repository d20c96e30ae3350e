INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRuns = 3
INVARIANTS OptsKept SolverKept Nested Repeatable InHull
