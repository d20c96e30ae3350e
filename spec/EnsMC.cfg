INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxRuns = 2
INVARIANTS OptsKept SolverKept Nested Repeatable InHull
