INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
  N = 3
  MaxViews = 2
  Qs = {0, 1, 5}
  Taus = {8}
  Confs = {2, 6}
INVARIANTS Emit ClosedForm AnyOrder PrecisionForm Definite Fraction
PROPERTIES NeverLessCertain TowardsTheView
